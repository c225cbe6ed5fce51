"""C21: age-to-age averages are of the kind, the window and the link ratios that their row label names."""
from . import miss, terms as T
from .dom import AbsStr, Ref
from .rules import prop
from .rules_form import form, sites, emit, whole
from .world import Failed

KINDS = ("simple", "geometric", "medial", "weighted")
ONE = T.const(1)
SHOW = lambda t: "?" if t is None else T.show(t, 7)[:200]


class Vec:
    """selected values of a column: the column as a term and the steps in which its values were selected (None: not known)"""

    def __init__(self, base, steps):
        self.base, self.steps = base, steps

    def __eq__(self, o):
        return isinstance(o, Vec) and self.base == o.base and self.steps is not None and self.steps == o.steps

    def same_rows(self, o):
        return self.steps is not None and self.steps == o.steps


def step(s):
    """a selection step, the selections made before it left out of its condition"""
    return s if s[0] != "mask" else ("mask", plain(s[1]))


def plain(t):
    """values without the selections they went through (not inside reductions)"""
    def f(a):
        k = T.key_of(a)
        if k[0] in ("sel", "sorted"):
            return plain(k[1])
        if k[0] in ("cmp", "and", "or", "not", "isnan", "abs"):
            return T.atom(k[0], *[plain(x) if T.is_term(x) else x for x in k[1:]])
        return a
    return T.mapatoms(t, f)


def rows_of(name):
    return tuple(step(s) for s in miss.ROWS[name]) if name in miss.ROWS else None


def factor(k):
    """one factor of the values of a vector: a Vec, or None for something else"""
    if k[0] == "sorted":
        return vec(k[1])
    if k[0] == "sel":
        v = vec(k[1])
        r = rows_of(k[2])
        if v is None or r is None or v.steps is None:
            return None
        return Vec(v.base, v.steps + r)
    if k[0] == "ones":
        c = T.key_of(k[1])
        v = vec(c[1]) if c and c[0] == "count" else None
        return Vec(ONE, v.steps) if v is not None else None
    return None


def vec(t, rows=None):
    """the values a term stands for, given the name of the rows a reduction went over"""
    if t is None:
        return None
    if rows and rows.startswith("O:"):
        r = rows_of(rows[2:])
        v = vec(t)
        if v is None or r is None or v.steps is None:
            return None
        return v if v.steps == r else Vec(v.base, r) if not v.steps else None
    if rows not in (None, "values", "allO"):
        return None
    found, bad = [], []

    def f(a):
        k = T.key_of(a)
        if k[0] in ("sel", "sorted", "ones"):
            v = factor(k)
            if v is None:
                bad.append(k)
                return a
            found.append(v)
            return v.base
        return a
    b = T.mapatoms(t, f)
    if bad or b is None:
        return None
    if not found:
        return Vec(b, ())
    if len(t) == 1 and all(v.same_rows(found[0]) for v in found) and len(found) == sum(1 for x, e in t[0][0] if T.name_of(x)[0] in ("sel", "sorted", "ones")):
        return Vec(b, found[0].steps)
    return None


def num_of(t):
    """vector of which a term is the number of values"""
    k = T.key_of(t)
    if k and k[0] in ("count", "len"):
        return vec(k[1]) if T.is_term(k[1]) else None
    if k and k[0] == "SUM":
        v = vec(k[1], k[2])
        return v if v is not None and v.base == ONE else None
    return None


def branches(t, conds=()):
    """(conditions, value) of a value that is one of several"""
    k = T.key_of(t)
    if k and k[0] == "ite":
        return branches(k[2], conds + ((k[1], True),)) + branches(k[3], conds + ((k[1], False),))
    return [(conds, t)]


def average(t):
    """what a value is an average of: (kind, vector, more)"""
    k = T.key_of(t)
    if k and k[0] == "NaN":
        return "nan", None, None
    if k and k[0] in ("MEAN", "GMEAN"):
        v = vec(k[1], k[2] if len(k) > 2 else None)
        return ("mean" if k[0] == "MEAN" else "gmean"), v, None
    if k and k[0] == "at" and (k[2] == "*" and len(k) > 3 and T.is_num(k[3])):
        v = vec(k[1])
        return ("one", v, None) if v is not None and v.steps else (None, None, None)
    if k and k[0] == "exp":
        m = T.key_of(k[1])
        x = T.key_of(m[1]) if m and m[0] == "MEAN" else None
        return ("gmean", vec(x[1], m[2] if len(m) > 2 else None), None) if x and x[0] == "log" and len(x) == 2 else (None, None, None)
    if k and k[0] in ("MIN", "MAX", "MEDIAN"):
        return k[0].lower(), vec(k[1], k[2] if len(k) > 2 else None), None
    if k and k[0] == "SUM":
        return "sum", vec(k[1], k[2]), ONE
    if t is not None and len(t) > 1:
        ks = [(T.name_of(m[0][0]), c) for m, c in t if len(m) == 1 and m[0][1] == (1, 0)]
        if len(ks) == len(t) and len({c for x, c in ks}) == 1 and all(x[0] == "at" and len(x) > 3 and x[2] == "*" and T.is_num(x[3]) for x, c in ks) and len({x[1] for x, c in ks}) == 1:
            v = vec(ks[0][0][1])
            if v is not None and v.steps:
                return "some", v, (tuple(sorted(T.num(x[3]) for x, c in ks)), ks[0][1])
    if t is None or len(t) != 1:
        return None, None, None
    mono, c = t[0]
    up, down = [], []
    for x, e in mono:
        if e[1] != 0 or e[0] not in (1, -1):
            return None, None, None
        (up if e[0] == 1 else down).append(T.name_of(x))
    if len(up) == 1 and up[0][0] == "SUM" and len(down) <= 1:
        v = vec(up[0][1], up[0][2])
        if not down:
            return "sum", v, c
        if c != 1:
            return None, None, None
        d = T.atom(*down[0])
        w = num_of(d)
        if w is not None:
            return ("mean", v, None) if v is not None and v.same_rows(w) else ("badmean", v, w)
        if down[0][0] == "SUM":
            return "ratio", v, vec(down[0][1], down[0][2])
    return None, None, None


# ---- how many values there can be where a branch is taken ---------------------------------------------------------------------
CASES = [(n, same, m) for n in range(7) for same in (True, False) for m in range(n + 1)
         if (same or n >= 2) and (not same or m == 0) and (same or m <= n - 2)]
OPS = {"Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}


def cases(conds, full, medial):
    """the cases (number of values, all the same?, number of them between the smallest and the largest) in which the conditions hold; whether every
    condition was understood.  full: the steps of the window's values; medial: those of the values between"""
    left, sure = CASES, True
    for c, pol in conds:
        f = case_test(c, full, medial)
        if f is None:
            sure = False
        else:
            left = [x for x in left if f(*x) == pol]
    return left, sure


OWN = []


def clean(steps):
    """without the conditions that hold for every value"""
    if steps is None or not OWN:
        return steps
    return tuple(s for s in steps if s[0] != "mask" or all(mask_kind(s[1], b, OWN[2]) != "all" for b in OWN[:2]))


def case_test(c, full, medial):
    k = T.key_of(c)
    if not k:
        return None
    if k[0] == "not":
        f = case_test(k[1], full, medial)
        return (lambda *x: not f(*x)) if f else None
    if k[0] in ("and", "or"):
        f, g = case_test(k[1], full, medial), case_test(k[2], full, medial)
        if f is None or g is None:
            return None
        return (lambda *x: f(*x) and g(*x)) if k[0] == "and" else (lambda *x: f(*x) or g(*x))
    if k[0] == "all":
        q = T.key_of(k[1])
        if q and q[0] == "cmp" and q[1] == "Eq":
            for a, b in ((q[2], q[3]), (q[3], q[2])):
                v, (kind, w, _) = vec(a), average(b)
                if v is not None and w is not None and kind in ("one", "min", "max") and v == w and v.steps == full:
                    return lambda n, same, m: same
        return None
    if k[0] == "cmp" and k[1] in OPS:
        for a, b, op in ((k[2], k[3], k[1]), (k[3], k[2], {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(k[1], k[1]))):
            d = T.sub(a, b)
            v = None
            for mono, c in d or ():
                if len(mono) == 1 and mono[0][1] == (1, 0) and abs(c) == 1:
                    w = num_of(((mono, T.F(1)),))
                    if w is not None and w.steps is not None:
                        w = Vec(w.base, clean(w.steps))
                        v = w, c, T.sub(d, ((mono, c),))
            if v is None:
                break
            w, c, rest = v
            if not T.is_num(rest):
                break
            r, i = T.num(rest), 0 if w.steps == full else 2 if w.steps == medial else None
            if i is None and w.steps and w.steps[-1][0] == "rank" and w.steps[:-1] == full and trimmed(w.steps[-1], full):
                cut = sum(trimmed(w.steps[-1], full))
                return lambda *x: OPS[k[1]](c * max(0, x[0] - cut) + r, 0)
            if i is None:
                break
            return lambda *x: OPS[k[1]](c * x[i] + r, 0)
        if k[1] in ("Eq", "NotEq"):
            (p, v, _), (q, w, _) = average(k[2]), average(k[3])
            if {p, q} <= {"min", "max", "one"} and p != q and "one" not in (p, q) and v is not None and v == w and v.steps == full:
                return lambda n, same, m: same == (k[1] == "Eq")
    return None


# ---- selections ---------------------------------------------------------------------------------------------------------------
def mask_kind(c, base, ind):
    """what a condition on the values keeps: "pos" those that are not left out, "inner" those between the smallest and the largest"""
    k = T.key_of(c)
    if not k:
        return None
    if k[0] == "and":
        a, b = mask_kind(k[1], base, ind), mask_kind(k[2], base, ind)
        if {a, b} == {"notmin", "notmax"}:
            return "inner"
        if a == b:
            return a
        if "size" in (a, b):
            return "size"
        if "pos" in (a, b) and {a, b} <= {"pos", "known", "nonzero", "any", "positive"}:
            return "pos"
        return None
    if k[0] == "or":
        return "all" if {mask_kind(k[1], base, ind), mask_kind(k[2], base, ind)} == {"notmin", "notmax"} else None
    if k[0] == "not":
        q = T.key_of(k[1])
        if q and q[0] == "cmp":
            neg = {"Eq": "NotEq", "NotEq": "Eq", "Lt": "GtE", "GtE": "Lt", "Gt": "LtE", "LtE": "Gt"}
            return mask_kind(T.atom("cmp", neg[q[1]], q[2], q[3]), base, ind) if q[1] in neg and not q[1].startswith(("Lt", "Gt")) else None
        return "known" if q and q[0] == "isnan" and q[1] == base else None
    if k[0] != "cmp":
        return None
    a, b, op = k[2], k[3], k[1]
    if a != base and a != ind and (b == base or b == ind):
        a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
    if a == base:
        if T.is_num(b) and (T.num(b) >= T.F(1, 100) if op in ("Gt", "GtE") else op in ("Lt", "LtE") and T.num(b) < 10 ** 6):
            return "size"
        if T.is_num(b) and T.num(b) == 0:
            return {"Gt": "pos" if times(base, ind) else "positive", "NotEq": "nonzero" if times(base, ind) else "any", "GtE": "any"}.get(op)
        q = T.key_of(b)
        if q and q[0] in ("MIN", "MAX") and (plain(q[1]) if T.is_term(q[1]) else None) == base:
            return {"MIN": {"NotEq": "notmin", "Gt": "notmin"}, "MAX": {"NotEq": "notmax", "Lt": "notmax"}}[q[0]].get(op)
    if a == T.mul(base, ind) and T.is_num(b) and T.num(b) == 0 and op == "Gt":
        return "pos"
    if a == ind and T.is_num(b):
        return {("Eq", 1): "pos", ("Gt", 0): "pos", ("NotEq", 0): "pos", ("GtE", 1): "pos"}.get((op, T.num(b)))
    return None


def times(t, x):
    """is one term a multiple of the other, an atom?"""
    own = [i for m, c in x or () for i, e in m]
    return len(own) == 1 and t is not None and len(t) == 1 and own[0] in [i for i, e in t[0][0]]


def window(steps, lastv, number):
    """(True | False | None, text): are the values those of the last `number` (None: all) periods up to the last one of lastv?"""
    wins = [s for s in steps if s[0] == "win"]
    if not wins:
        return (True, "") if number is None else (False, "every link ratio of the period instead of the last ones")
    if len(wins) > 1 or steps[0][0] != "win":
        return None, "window taken in several steps"
    lo, end = wins[0][1:]
    if T.fn_of(end) == "end" and number is None and T.is_num(lo):
        return (True, "") if T.num(lo) == 0 else (False, "from position %s on" % T.num(lo))
    if T.fn_of(end) == "end" or end and all(T.name_of(i) == ("n",) for i in T.atoms_in(end)):
        if number is None:
            return (True, "") if T.is_num(lo) and T.num(lo) == 0 else (None, "window not tracked")
        for x in lastv:                         # (nothing comes after the last value)
            if x is not None and start(lo, T.sub(T.add(T.atom("pos", T.atom("lastvalid", "O", x)), ONE), number))[0]:
                return True, ""
        size = T.const(0) if T.fn_of(end) == "end" else end
        if lo == T.sub(size, number) or start(lo, T.sub(size, number))[0]:
            return False, "a window that ends with the last origin, whether its link ratio is available or not"
        return None, "window not tracked"
    for conds, x in branches(end):
        t = ends_at(x, lastv)
        if t:
            return False, t
    last = None
    for i in T.atoms_in(end) if end is not None else ():
        k = T.name_of(i)
        if k[0] == "lastvalid" and len(k) > 2:
            last = k
    if last is None:
        return None, "end of the window not tracked"
    p = T.atom("pos", T.atom(*last))
    d = T.sub(end, p)
    if d is None or not T.is_num(d):
        return None, "end of the window not tracked"
    if T.num(d) != 1:
        return False, "a window that ends %s the last available one" % ("before" if T.num(d) < 1 else "after")
    if last[2] not in lastv:
        if number is None or last[2] not in OTHER:
            return None, "window ends with the last value of %s" % SHOW(last[2])
        return False, "a window that ends with the last value of %s" % SHOW(last[2])
    if number is None:
        if T.is_num(lo):
            return (True, "") if T.num(lo) == 0 else (False, "a window from position %s on" % T.num(lo))
        return None, "start of the window not tracked"
    want = T.sub(end, number)
    return start(lo, want)


def ends_at(end, lastv):
    """a definitely wrong end of a window; None otherwise"""
    for m, c in end or ():
        k = T.name_of(m[0][0]) if len(m) == 1 else (None,)
        q = T.key_of(k[1]) if k[0] == "pos" else None
        if q and q[0] == "lblof" and q[2] == 0:
            steps = rows_of(q[1]) or ()
            if len(steps) == 1 and steps[0][0] == "mask":
                z = T.key_of(steps[0][1])
                if z and z[0] == "isnan" and z[1] in lastv:
                    return "a window that ends at the first missing link ratio, even if others follow"
            if len(steps) == 1 and steps[0][0] == "win" and steps[0][1] is not None:
                k = T.key_of(steps[0][1]) or (None,)
        if k[0] == "nn" and k[1] in lastv:
            return "a window that ends after as many periods as there are values, even if some are missing in between"
    return None


def start(lo, want):
    k = T.key_of(lo)
    if lo == want:
        return False, "a window whose start is negative when there are fewer link ratios than asked for"
    if T.is_num(lo):
        return False, "a window from position %s on" % T.num(lo)
    if k and k[0] in ("max", "maximum", "MAX") and set(x for x in k[1:] if T.is_term(x)) == {want, T.const(0)}:
        return True, ""
    if k and k[0] in ("max", "maximum", "MAX"):
        other = [x for x in k[1:] if T.is_term(x) and not T.is_num(x)]
        if len(other) == 1 and T.is_num(T.sub(other[0], want)):
            return False, "a window of %s more" % -T.num(T.sub(other[0], want)) if other[0] != want else "a window that starts at a fixed position"
        return None, "start of the window not tracked"
    if k and k[0] == "ite":
        ok = True
        for pol, x in ((True, k[2]), (False, k[3])):
            r = [y for y in (-3, -2, -1, 0, 1, 2, 3) if start_test(k[1], want, y) is pol]
            if any(start_test(k[1], want, y) is None for y in (-1, 0, 1)):
                return None, "start of the window not tracked"
            d = T.sub(x, want)
            for y in r:
                if T.is_num(x):
                    v = T.num(x)
                elif T.is_num(d):
                    v = y + T.num(d)
                else:
                    return None, "start of the window not tracked"
                ok = ok and v == max(y, 0)
        return (True, "") if ok else (False, "a window with a different number of link ratios than its label says")
    d = T.sub(lo, want)
    if d is not None and T.is_num(d):
        return False, "a window of %s more link ratios than its label says" % -T.num(d)
    return None, "start of the window not tracked"


def start_test(c, want, y):
    """the condition where the wanted start is y"""
    k = T.key_of(c)
    if not k or k[0] == "not" and not k[1]:
        return None
    if k[0] == "not":
        r = start_test(k[1], want, y)
        return None if r is None else not r
    if k[0] != "cmp" or k[1] not in OPS:
        return None
    d = T.sub(k[2], k[3])
    for s in (1, -1):
        r = T.sub(d, T.mul(want, T.const(s)))
        if r is not None and T.is_num(r):
            return OPS[k[1]](s * y + T.num(r), 0)
    return None


OTHER = set()        # other columns that a window may mistakenly end with


# ---- the rule -------------------------------------------------------------------------------------------------------------------
def label(row):
    """(kind, number of periods as a term or None for all) that a row label names"""
    if isinstance(row, AbsStr):
        p = (row.prefix or "").rstrip("-")
        return (p, row.src if T.is_term(row.src) else None, True) if p in KINDS and (row.prefix or "").endswith("-") and not row.suffix else None
    a, _, b = row.partition("-")
    if a == "all" and b in KINDS:
        return b, None, False
    if a in KINDS and b.isdigit():
        return a, T.const(int(b)), True
    return None


def judge(row, t, col, A, IND, C, facts=()):
    """(True | False | None, text) for what is stored in a column of a row"""
    kind, number, numbered = row
    if numbered and number is None or t is None or col is None or isinstance(col, str):
        return None, "not tracked"
    a, ind = miss.at1(A, col), miss.at1(IND, col)
    c0, c1 = miss.at1(C, col), miss.at1(C, T.add(col, ONE))
    own = T.mul(a, ind)
    OTHER.clear()
    OTHER.update([c0, c1, a, own])
    worst, why = True, ""
    for conds, leaf in branches(t):
        if T.fn_of(leaf) == "NaN" and any(T.fn_of(c) == "raised" and p for c, p in conds):
            continue
        conds = tuple((c, p) for c, p in conds if T.fn_of(c) != "raised") + tuple(facts)
        v, txt = leaf_ok(kind, number if numbered else None, conds, leaf, col, a, ind, own, c0, c1)
        if v is False:
            return False, txt
        if v is None:
            worst, why = None, txt
    return worst, why


def left_out(t, ind, x):
    """a value where the indicator has a given value"""
    def f(a):
        if a == ind:
            return T.const(x)
        k = T.key_of(a)
        q = T.key_of(k[1]) if k[0] == "at" and k[2] == "*" and len(k) > 3 else None
        if q and q[0] == "pow":
            k = "pow", miss.at1(q[1], k[3]), miss.at1(q[2], k[3])
        if k[0] == "pow" and T.is_num(left_out(k[2], ind, x) or ONE if left_out(k[2], ind, x) != () else ()):
            e = left_out(k[2], ind, x)
            return ONE if e == () else left_out(k[1], ind, x) if e == ONE else a
        return a
    return T.mapatoms(t, f)


def columns(v, own, a, ind, what):
    """(True | False | None, text): are the values the link ratios of the column's own period, those left out marked with zero?"""
    if v.base == own or v.base == a:
        return True, ""
    out, inn = left_out(v.base, ind, 0), left_out(v.base, ind, 1)
    if out is not None and T.is_num(out) and T.num(out) > 0 and inn == a and not any(ind in T.key_of(s[1]) for s in v.steps if s[0] == "mask" and T.key_of(s[1])):
        return False, "%s of which those that are left out count as %s" % (what, T.num(out))
    for x in T.atoms_in(v.base):
        if T.name_of(x)[0] == "at":
            k = T.name_of(x)
            if k[1] in (T.key_of(a)[1], T.key_of(ind)[1]) and k[2] == "*" and T.atom(*k) not in (a, ind):
                return False, "%s of another development period (%s)" % (what, SHOW(v.base))
    return None, "values averaged not tracked"


def leaf_ok(kind, number, conds, leaf, col, a, ind, own, c0, c1):
    if T.is_num(leaf):
        return (False, "the constant %s" % T.num(leaf)) if not conds else (None, "constant")
    what, v, more = average(leaf)
    if what == "nan":
        return nan_ok(kind, conds, own, a, ind, c0, c1)
    if what is None or v is None or v.steps is None:
        return None, "value not tracked: " + SHOW(leaf)
    OWN[:] = [own, a, ind]
    v = Vec(v.base, clean(v.steps))
    if what == "ratio":
        if more is None or more.steps is None:
            return None, "value not tracked: " + SHOW(leaf)
        if kind != "weighted":
            return (False, "a ratio of sums, not the %s average" % kind) if v.base in (T.mul(c1, ind), c1) else (None, "ratio of sums not tracked")
        return ratio_ok(number, v, more, ind, c0, c1)
    if kind == "weighted":
        if v.base in (own, a) and what in ("mean", "gmean", "one", "min", "max", "median"):
            return False, "the %s of the link ratios, not weighted by the amounts" % what
        if v.base == own and what == "sum":
            return None, "sum not tracked"
        return None, "value not tracked: " + SHOW(leaf)
    ok, txt = columns(v, own, a, ind, "link ratios")
    if ok is not True:
        return ok, txt
    # which of the values
    kinds = [mask_kind(s[1], v.base, ind) if s[0] == "mask" else "win" for s in v.steps]
    if "size" in kinds:
        return False, "an average in which link ratios do not count because of their size"
    trim = None
    for i, s in enumerate(v.steps):
        if s[0] == "rank":
            if trim or i < len(v.steps) - 1:
                kinds = [None]
                break
            trim = trimmed(s, v.steps[:i])
            kinds[i] = "rank" if trim else None
    if None in kinds:
        return None, "selection of the values not tracked"
    inner = "inner" in kinds
    one_sided = "notmin" in kinds or "notmax" in kinds
    if "notmin" in kinds and "notmax" in kinds:
        inner, one_sided = True, False
    full = tuple(s for s, q in zip(v.steps, kinds) if q not in ("inner", "notmin", "notmax", "rank"))
    w, txt = window(v.steps, (own, a, c1), number)
    if w is False:
        return w, txt
    if "pos" not in kinds:
        if "nonzero" in kinds:
            return None, "missing link ratios may be averaged"
        return False, "an average in which the link ratios that are left out count%s" % (" as zero" if v.base == own else "")
    medial = v.steps if inner else None
    if medial is None:
        # the selection of the values between the smallest and the largest, as named in the conditions
        for c, p in conds:
            for i in T.atoms_in(c):
                q = num_of(T.atom(*T.name_of(i)))
                if q is not None and q.base == v.base and q.steps is not None and q.steps[:len(full)] == full and q.steps != full:
                    if [mask_kind(s[1], v.base, ind) for s in q.steps[len(full):]] in (["inner"], ["notmin", "notmax"], ["notmax", "notmin"]):
                        medial = q.steps
    left, sure = cases(conds, full, medial)
    wrong = [(x, wrongly(kind, what, inner, one_sided, more, *x) if not trim else cut_wrong(kind, what, trim, *x)) for x in left]
    bad = [(x, y) for x, y in wrong if y]
    if not bad:
        return w, txt
    if sure or len(bad) == len(left):
        (n, same, m), y = bad[0]
        return False, y + " (with %d link ratio%s%s)" % (n, "" if n == 1 else "s", ", all the same" if same and n > 1 else "")
    return None, "case distinction not tracked"


def trimmed(s, before):
    """how many of the smallest and of the largest values a range of ranks leaves out"""
    lo, hi = s[1:]
    if not T.is_num(lo) or T.num(lo) < 0:
        return None
    if T.fn_of(hi) == "end":
        return int(T.num(lo)), 0
    if T.is_num(hi):
        return (int(T.num(lo)), -int(T.num(hi))) if T.num(hi) < 0 else None
    for i in T.atoms_in(hi):
        a = T.atom(*T.name_of(i))
        v = num_of(a)
        d = T.sub(hi, a)
        if v is not None and v.steps == before and d is not None and T.is_num(d) and T.num(d) <= 0:
            return int(T.num(lo)), -int(T.num(d))
    return None


def cut_wrong(kind, what, trim, n, same, m):
    """the same for an average of the values in ascending order without some of the first and the last"""
    left = max(0, n - trim[0] - trim[1])
    if n == 0 or what not in ("mean", "gmean", "one", "median"):
        return None if n == 0 else "not an average"
    if left == 0:
        return "the mean of no values" if not (kind == "medial" and n >= 3 and m == 0 and not same) else None
    if same:
        return None
    if kind == "medial" and what == "mean" and n >= 3:
        if trim == (1, 1):
            return None if m == n - 2 or m == 0 else "the mean of values of which some are as large as the largest or as small as the smallest"
        return "the mean without %d of the smallest and %d of the largest" % trim if trim != (0, 0) or m else None
    if trim == (0, 0) or n - left == 0:
        return wrongly(kind, what, False, False, None, n, same, m)
    return "the %s without %d of the smallest and %d of the largest" % ((what,) + trim)


def wrongly(kind, what, inner, one_sided, more, n, same, m):
    """what is wrong with an average of n values of which m lie strictly between the smallest and the largest; None if it is right"""
    if n == 0:
        return None if what in ("mean", "gmean", "badmean", "median") else "an element of no link ratios"
    if what == "badmean":
        return "a sum divided by the number of other values"
    if what == "some":
        if n == len(more[0]) == len(set(x % n for x in more[0])) and n * more[1] == 1 and not inner:
            what = "mean"
        else:
            return "the sum of link ratios %s times %s" % (list(map(int, more[0])), more[1])
    if one_sided:
        return "an average without only the largest or only the smallest" if not same else "nothing"
    if what in ("min", "max", "one", "median"):
        if inner:
            return None if m == 1 else "a single link ratio"
        if what == "median":
            return None if n <= 2 or same or kind == "medial" and n == 3 else "the median, not the %s average" % kind if not (kind == "medial" and m == 0) else None
        return None if n == 1 or same else "a single link ratio"
    if what == "sum":
        k = (m if inner else n) * more if more is not None else None
        if k is None or k != 1 and not T.is_term(more):
            return "a sum of %d values times %s" % (m if inner else n, more)
        what = "mean"
    if kind == "geometric":
        if what == "mean":
            return "the arithmetic mean" if not same else None
        return "the mean without the largest and the smallest" if inner and (n >= 2) else None
    if kind == "simple":
        if what == "gmean":
            return "the geometric mean" if not same else None
        return "the mean without the largest and the smallest" if inner else None
    # medial
    if what == "gmean":
        return "the geometric mean" if not same else None
    if inner:
        return None if m > 0 or n >= 3 and not same else "the mean of no values"
    return None if n <= 2 or same or m == 0 else "the mean of all values, the largest and the smallest included"


def ratio_ok(number, v, w, ind, c0, c1):
    for x, want, what in ((v, c1, "the later amounts"), (w, c0, "the earlier amounts")):
        if x.base == T.mul(want, ind):
            continue
        if x.base == want:
            if any(s[0] == "mask" for s in x.steps):
                if any(mask_kind(s[1], x.base, ind) == "pos" and ind in s[1:] or s[0] == "mask" and T.key_of(s[1]) and ind in T.key_of(s[1]) for s in x.steps):
                    continue
                return None, "selection of the amounts not tracked"
            return False, "a ratio in which %s of the link ratios that are left out count" % what
        for i in T.atoms_in(x.base):
            k = T.name_of(i)
            if k[0] == "at" and k[1] == T.key_of(c0)[1] and k[2] == "*" and T.atom(*k) != want:
                return False, "a ratio whose %s is of another development period" % ("numerator" if what.endswith("later amounts") else "denominator")
            if k[0] == "at" and k[1] == T.key_of(ind)[1] and k[2] == "*" and T.atom(*k) != ind:
                return False, "a ratio that leaves out the link ratios of another development period"
        return None, "amounts not tracked: " + SHOW(x.base)
    if not v.same_rows(w):
        a, b = window(v.steps, (c1, T.mul(c1, ind)), number), window(w.steps, (c1, T.mul(c1, ind)), number)
        if a[0] is True and b[0] is True:
            return True, ""
        if a[0] is False or b[0] is False:
            return a if a[0] is False else b
        return None, "windows of numerator and denominator not compared"
    return window(v.steps, (c1, T.mul(c1, ind)), number)


def nan_ok(kind, conds, own, a, ind, c0, c1):
    full = medial = None
    if kind == "weighted":
        for c, p in conds:
            k = T.key_of(c)
            while k and k[0] == "not":
                k, p = T.key_of(k[1]), not p
            if k and k[0] == "cmp" and k[1] == ("Eq" if p else "NotEq"):
                q = T.key_of(T.sub(k[2], k[3]))
                if q and q[0] == "SUM" and getattr(vec(q[1], q[2]), "base", None) == T.mul(c0, ind):
                    return True, ""
    for c, p in conds:
        for i in T.atoms_in(c):
            q = num_of(T.atom(*T.name_of(i)))
            if q is None or q.steps is None or q.base not in (own, a, ONE):
                continue
            ks = [mask_kind(s[1], own if q.base == ONE else q.base, ind) if s[0] == "mask" else "win" for s in q.steps]
            if None in ks:
                continue
            if "inner" in ks:
                medial = q.steps
            else:
                full = q.steps
    if full is None and medial is not None:
        full = tuple(s for s in medial if s[0] != "mask" or mask_kind(s[1], own, ind) != "inner")
    left, sure = cases(conds, full, medial)
    bad = [x for x in left if x[0] > 0 and not (kind == "medial" and x[2] == 0 and x[0] > 2 and not x[1])]
    if not bad:
        return True, ""
    if kind == "weighted" or not sure:
        return None, "case in which there is no average not tracked"
    n, same, m = bad[0]
    return False, "NaN (with %d link ratio%s%s)" % (n, "" if n == 1 else "s", ", all the same" if same and n > 1 else "")


@prop("C21")
def c21(rep, W):
    R = "average"
    rep.rule(R, "what is stored in a column of the row named <kind>-<n> (all-<kind>) is the <kind> average of the last n (of all) link ratios of that column's "
                "development period, those left out by the indicator excluded: simple the arithmetic, geometric the geometric, medial the arithmetic mean without "
                "the largest and the smallest (of everything when there are at most two), weighted the ratio of the sums of the amounts; no average of no link ratios")

    def run():
        keep = miss.AVG[0]
        miss.AVG[0] = True
        miss.ROWS.clear()
        try:
            b, tri = W.tri("build")
            s = W.scn("averages", b.st)
            try:
                s.meth(tri, "a2a_avgs")
                A, IND, C = whole(s.obj(s.attr(tri, "a2a"))), whole(s.obj(s.attr(tri, "a2aind"))), whole(s.obj(tri))
            except Failed as e:
                rep.unk(R, "a2a_avgs", str(e))
                return
            if None in (A, IND, C):
                rep.unk(R, "a2a_avgs", "tables not tracked")
                return
            done = set()
            evs = [e for e in s.events() if e.kind == "rowstore"]
            for (fn, line), es in sites(evs):
                by = {}
                for e in es:
                    r = label(e.data["row"])
                    if r is not None:
                        by.setdefault((str(e.data["row"]), r), []).append(e)
                for (name, r), xs in sorted(by.items(), key=lambda x: x[0][0]):
                    done.add((r[0], r[2]))
                    found = []
                    for e in xs:
                        v, txt = judge(r, e.data["term"], e.data["col"], A, IND, C, [(c, p) for c, p in e.data["facts"] if c is not None])
                        found.append((v, txt, e))
                    emit(rep, R, "row %s at line %s" % (name, line), fn, found, "row %s" % name, "averages")
            for kd in KINDS:
                for numbered in (True, False):
                    if (kd, numbered) not in done:
                        rep.unk(R, "%s-%s" % (kd, "n") if numbered else "all-%s" % kd, "where this row is filled in is not tracked")
        finally:
            miss.AVG[0] = keep
            miss.ROWS.clear()
    form(W, rep, R, run)
