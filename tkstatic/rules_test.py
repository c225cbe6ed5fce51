"""C22: the significance tests of the Mack estimate are the published functions of counts and ranks."""
import math
from fractions import Fraction
from statistics import NormalDist

from . import dom, miss, terms as T
from .dom import Cell, D0, Ref, Sc
from .rules import prop
from .rules_form import emit, form, sites
from .world import Failed

NORM = NormalDist()
SIZES = 9, 5, 14, 23, 40        # periods of the triangles the derived functions are evaluated for


class Unknown(Exception):
    pass


def noise(*key):
    """a reproducible number without structure"""
    h = 2166136261
    for c in repr(key).encode():
        h = (h ^ c) * 16777619 % 2 ** 32
    h ^= h >> 15
    h = h * 2246822519 % 2 ** 32
    return (h ^ h >> 13) % 2 ** 32 / 2 ** 32


def binom(a, b):
    try:
        if a != int(a) or b != int(b):
            return math.gamma(a + 1) / math.gamma(b + 1) / math.gamma(a - b + 1)
        return float(math.comb(int(a), int(b))) if a >= 0 and b >= 0 else float("nan")
    except (ValueError, OverflowError):
        return float("nan")


def ranks(xs):
    """ranks from the smallest, ties sharing their average rank"""
    return [sum(y < x for y in xs) + (sum(y == x for y in xs) + 1) / 2 for x in xs]


class Point:
    """one assignment of values to what the tests are functions of"""

    def __init__(self, groups, p, nrow, size):
        self.groups, self.p, self.nrow, self.size = groups, p, nrow, size    # groups: list of dicts; nrow(group): number of rows of the inner sums
        self.x = None

    def ev(self, t, g=None, r=None):
        if t is None:
            raise Unknown("value not tracked")
        s = 0.0
        for m, c in t:
            v = float(c)
            for i, (a, b) in m:
                if b:
                    raise Unknown("power of alpha")
                x = self.atom(T.name_of(i), g, r)
                e = float(a)
                if isinstance(x, complex) or x < 0 and e != int(e):
                    return float("nan")
                if x == 0 and e < 0:
                    v = float("nan")
                else:
                    v *= x ** e
            s += v
        return s

    def atom(self, k, g, r):
        f = k[0]
        if f == "n":
            return self.size
        if f == "p":
            return self.p
        if f == "x" and self.x is not None:
            return self.x
        if f == "SUM" or f == "SUMP":
            if len(k) > 2 and k[2] not in (("rows", "values") if g is None else ("rows", "values", "allO")):
                raise Unknown("sum along %s" % (k[2],))
            if g is None:
                return math.fsum(self.ev(k[1], h) for h in self.groups)
            if r is None and self.nrow is not None:
                return math.fsum(self.ev(k[1], g, j) for j in range(self.nrow(g)))
            raise Unknown("nested sum")
        if f == "MEAN":
            xs = [self.ev(k[1], h) for h in self.groups] if g is None else [self.ev(k[1], g, j) for j in range(self.nrow(g))] if r is None and self.nrow else None
            if xs is None or len(k) > 2 and k[2] not in ("rows", "values"):
                raise Unknown("nested mean")
            return math.fsum(xs) / len(xs)
        if f == "poly":
            return self.ev(k[1], g, r)
        if f in ("min", "max") and len(k) > 2:
            return (min if f == "min" else max)(self.ev(x, g, r) for x in k[1:])
        if f in ("floor", "ceil", "rint", "round", "abs", "exp", "log", "sqrt") and len(k) == 2:
            x = self.ev(k[1], g, r)
            if x != x:
                return x
            if f in ("log", "sqrt") and x <= 0:
                return float("nan")
            return float({"floor": lambda y: math.floor(y + 1e-12), "ceil": lambda y: math.ceil(y - 1e-12), "rint": round, "round": round, "abs": abs,
                          "exp": math.exp, "log": math.log, "sqrt": math.sqrt}[f](x))
        if f == "binom" and len(k) == 3 or f == "comb" and len(k) == 3:
            return binom(self.ev(k[1], g, r), self.ev(k[2], g, r))
        if f == "pow" and len(k) == 3:
            x, e = self.ev(k[1], g, r), self.ev(k[2], g, r)
            return x ** e if x > 0 else float("nan")
        if f.startswith("norm.") and len(k) == 2:
            x = self.ev(k[1], g, r)
            if f in ("norm.cdf", "norm.sf"):
                return NORM.cdf(x if f == "norm.cdf" else -x)
            if f in ("norm.ppf", "norm.isf"):
                if not 0 < x < 1:
                    return float("nan")
                return NORM.inv_cdf(x) * (1 if f == "norm.ppf" else -1)
        if f == "root" and len(k) == 2:
            return self.root(k[1], g, r)
        if f == "ite" and len(k) == 4:
            return self.ev(k[2] if self.truth(k[1], g, r) else k[3], g, r)
        if g is not None:
            if f == "cnt" and T.is_num(k[1]) and ("cnt", int(T.num(k[1]))) in g:
                x = g["cnt", int(T.num(k[1]))]
                return float(T.num(k[2])) if len(k) > 2 and x == 0 else x
            if f == "parsed" and g.get("label") is not None:
                return g["label"]
            if f == "rng" and "i" in g and len(k) > 2 and self.ev_(k[1]) == 0 and self.ev_(k[2]) == 1:
                return g["i"]
            if f == "rank" and len(k) == 2 and r is not None and "ranks" in g:
                i = self.ev(k[1], g)
                v = g["ranks"](i)
                if v is None or r >= len(v):
                    raise Unknown("rank in column %s" % i)
                return v[r]
        raise Unknown(T.show(T.atom(*k), 4)[:80])

    def ev_(self, t):
        return float(T.num(t)) if T.is_term(t) and T.is_num(t) else t

    def truth(self, c, g, r):
        k = T.key_of(c)
        if k and k[0] == "not":
            return not self.truth(k[1], g, r)
        if k and k[0] in ("and", "or"):
            return (all if k[0] == "and" else any)(self.truth(x, g, r) for x in k[1:])
        if k and k[0] == "cmp":
            a, b = self.ev(k[2], g, r), self.ev(k[3], g, r)
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[k[1]]
        raise Unknown("condition")

    def root(self, t, g, r):
        """the zero that a search started nearby finds, when there is a single change of sign"""
        old, self.x = self.x, None

        def f(x):
            self.x = x
            return self.ev(t, g, r)
        try:
            xs = [j / 4 for j in range(-24, 25)]
            ys = [f(x) for x in xs]
            at = [j for j in range(len(xs) - 1) if ys[j] == 0 or ys[j] * ys[j + 1] < 0]
            if len(at) != 1:
                raise Unknown("zero of a function")
            lo, hi = xs[at[0]], xs[at[0] + 1]
            up = f(hi) > f(lo)
            for _ in range(80):
                mid = (lo + hi) / 2
                if (f(mid) > 0) == up:
                    hi = mid
                else:
                    lo = mid
            return (lo + hi) / 2
        finally:
            self.x = old


def near(a, b):
    return a != a and b != b or abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))


# calendar year effects
def diagonals(key, size, top=8):
    return [{("cnt", -1): int(noise(key, j, "s") * top), ("cnt", 1): 1 + int(noise(key, j, "l") * top), ("cnt", 0): int(noise(key, j, "m") * 3)} for j in range(size)]


def expect_cy(gs, p):
    e = v = z = 0.0
    for g in gs:
        s, l = g["cnt", -1], g["cnt", 1]
        n = s + l
        m = (n - 1) // 2
        b = binom(n - 1, m) / 2.0 ** n
        ej = n / 2 - b * n
        e += ej
        v += n * (n - 1) / 4 - b * n * (n - 1) + ej - ej * ej
        z += min(s, l)
    w = abs(NORM.inv_cdf(p / 2)) * math.sqrt(v)
    return e - w, e + w, z


def cy_points(_=None):
    for key, size, p in ((1, 1, .05), (2, 1, .1), (3, 3, .3), (4, 6, .05), (5, 7, .5), (6, 5, .9), (7, 2, .01)):
        gs = diagonals(key, size)
        yield Point(gs, p, None, 9), expect_cy(gs, p)
    for key, size, p in ((8, 20, .05), (9, 39, .2)):
        gs = diagonals(key, size, 24)
        yield Point(gs, p, None, size + 1), expect_cy(gs, p)
    gs = [{("cnt", -1): a, ("cnt", 1): b, ("cnt", 0): c} for a, b, c in ((0, 2, 0), (1, 0, 1), (1, 1, 0))]
    for p in (.001, .999):
        yield Point(gs, p, None, 4), expect_cy(gs, p)


# correlation between development periods
def pairs(key, label, size):
    gs = []
    cols = {}
    for i in range(size - 3):
        k = i + 2
        rows = size - k
        for h in (0, 1):
            cols[2 * i + h] = ranks([int(noise(key, i, h, j) * 12) for j in range(rows)])
    for i in range(size - 3):
        gs.append({"i": i, "k": i + 2, "label": label(i) if label else None, "ranks": lambda c, cols=cols: cols.get(c)})
    return gs


def expect_dev(gs, p, n):
    a = b = 0.0
    for g in gs:
        k = g["k"]
        s, r = g["ranks"](2 * g["i"]), g["ranks"](2 * g["i"] + 1)
        t = 1 - 6 * sum((x - y) ** 2 for x, y in zip(r, s)) / ((n - k) ** 3 - n + k)
        a, b = a + (n - k - 1) * t, b + (n - k - 1)
    w = NORM.inv_cdf((1 + p) / 2) / math.sqrt((n - 2) * (n - 3) / 2)
    return -w, w, a / b


def dev_points(label):
    for n, key, p in zip(SIZES, (11, 12, 13, 14, 15), (.5, .05, .9, .3, .99)):
        gs = pairs(key, label, n)
        yield Point(gs, p, lambda g: n - g["k"], n), expect_dev(gs, p, n)


def parts(s, x):
    """the two ends of the interval and the statistic of the result of a test"""
    def member(v, j, size):
        o = s.obj(v) if isinstance(v, Ref) else v
        segs = getattr(o, "segs", None)
        if segs is None or len(segs) != size:
            raise Unknown("result is not a pair of an interval and a statistic")
        return segs[j][0]

    def value(v):
        o = s.obj(v) if isinstance(v, Ref) else v
        c = getattr(o, "cell", None)
        t = miss.term_of(c) if c is not None else None
        if t is None:
            raise Unknown("value not tracked")
        return t
    iv = member(x, 0, 2)
    return value(member(iv, 0, 2)), value(member(iv, 1, 2)), value(member(x, 1, 2))


TESTS = (("cy_effects_test", cy_points, ("lower end of the interval", "upper end of the interval", "number of factors of the smaller group")),
         ("devp_corr_test", dev_points, ("lower end of the interval", "upper end of the interval", "weighted rank correlation")))


def judge(t, which, points):
    for pt, want in points():
        try:
            got = pt.ev(t)
        except Unknown as e:
            return None, str(e)
        if not near(got, want[which]):
            return False, "%.6g instead of %.6g for %s, p=%s" % (got, want[which], told(pt), pt.p)
    return True, ""


def told(pt):
    g = pt.groups[0]
    if ("cnt", 1) in g:
        return "diagonals with (below, above) the median = %s" % ", ".join("(%d, %d)" % (h["cnt", -1], h["cnt", 1]) for h in pt.groups)
    return "a triangle of %d periods with ranks %s ..." % (pt.size, "/".join(",".join("%g" % x for x in g["ranks"](j)) for j in (0, 1)))


# ------------------------------------------------------------------ what the tests are functions of
def compared(t, e, A):
    """a condition of an assignment as a function of (value, median, mean) of the link ratios of a column; the value may be unknown"""
    row, col = e.data["key"]
    inside = [None]         # within the cell of a table: whether it is the row that is assigned

    def leaf(k, env):
        if k[0] == "at" and len(k) == 4:
            b = T.key_of(k[1])
            if T.same(k[1], A) and k[3] == col and (k[2] == "*" or k[2] == row):
                return env[0]
            if b and b[0] in ("MEDIAN", "MEAN") and k[3] == col and T.same(b[1], A) and b[2:] in (("allO",), ("rows",)):
                return env[1 if b[0] == "MEDIAN" else 2]
            if k[3] == col and inside[0] is None:
                inside[0] = k[2] == "*" or k[2] == row
                try:
                    return val(k[1], env)
                finally:
                    inside[0] = None
        if inside[0] and k == T.key_of(A):
            return env[0]
        if inside[0] is not None and k[0] in ("MEDIAN", "MEAN") and T.same(k[1], A) and k[2:] in (("allO",), ("rows",)):
            return env[1 if k[0] == "MEDIAN" else 2]
        if k[0] in ("MEDIAN", "MEAN") and k[2:] in (("allO",), ("rows",)):
            b = T.key_of(k[1])
            if b and b[0] == "at" and len(b) == 4 and T.same(b[1], A) and b[3] == col and b[2] == "*":
                return env[1 if k[0] == "MEDIAN" else 2]
        if k[0] == "poly":
            return val(k[1], env)
        if k[0] == "abs":
            return abs(val(k[1], env))
        if k[0] in ("int", "float") and len(k) == 2:
            return Fraction(int(val(k[1], env))) if k[0] == "int" else val(k[1], env)
        if k[0] == "sign":
            x = val(k[1], env)
            return Fraction((x > 0) - (x < 0))
        if k[0] == "ite" and len(k) == 4:
            return val(k[2] if truth(k[1], env) else k[3], env)
        if k[0] in ("min", "max") and len(k) > 2:
            return (min if k[0] == "min" else max)(val(x, env) for x in k[1:])
        raise Unknown("condition")

    def val(t, env):
        if t is None:
            raise Unknown("condition")
        s = Fraction(0)
        for m, c in t:
            v = Fraction(c)
            for i, (a, b) in m:
                if b or a != int(a):
                    raise Unknown("condition")
                x = leaf(T.name_of(i), env)
                if x == 0 and a < 0:
                    raise Unknown("condition")
                v *= x ** int(a)
            s += v
        return s

    def truth(c, env):
        k = T.key_of(c) if c is not None else None
        if not k:
            raise Unknown("condition")
        if k[0] == "not":
            return not truth(k[1], env)
        if k[0] == "and":
            return all(truth(x, env) for x in k[1:])
        if k[0] == "or":
            return any(truth(x, env) for x in k[1:])
        if k[0] == "isnan":
            val(k[1], env)
            return False
        if k[0] == "near":
            a, b = val(k[1], env), val(k[2], env)
            return abs(a - b) <= Fraction(k[4]) + Fraction(k[3]) * abs(b)
        if k[0] == "cmp":
            a, b = val(k[2], env), val(k[3], env)
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[k[1]]
        raise Unknown("condition")
    return (lambda env: truth(t, env)), (lambda env: val(e.data["term"], env))


def cases():
    """(link ratio, median, mean)"""
    for m in (Fraction("1.2"), Fraction("1.000002"), Fraction("0.9")):
        for d in ("0.5", "0.01", "1e-6", "1e-8"):
            for sg in (-1, 0, 1):
                for mean in ("0.2", "1e-9", "-1e-9", "-0.2"):
                    yield m * (1 + sg * Fraction(d)), m, m * (1 + Fraction(mean)), sg


def assigned(rep, R, W, b, tri):
    """+1 above the median of the column, -1 below, 0 at it"""
    s = W.scn("a2a_assignment", b.st)
    try:
        s.attr(tri, "a2a_assignment")
        A = s.obj(s.attr(tri, "a2a")).rest.cell.term
    except (Failed, AttributeError) as e:
        rep.unk(R, "a2a_assignment", str(e))
        return
    by = {}
    for e in s.events():
        if e.kind == "cellstore" and e.func.endswith(".a2a_assignment") and e.data["key"] is not None and e.data["term"] is not None:
            by.setdefault((e.func, e.data["table"]), []).append(e)
    if len(by) != 1:
        rep.unk(R, "a2a_assignment", "where it is filled in is not tracked")
        return
    (fn, _), es = list(by.items())[0]
    es.sort(key=lambda e: e.line)
    out = (True, "", None)
    for v, m, mean, sg in cases():
        env = v, m, mean
        got, sure = None, True
        for e in es:
            try:
                conds = [(c, p) for c, p in e.data["facts"]]
                known = []
                unknown = False
                for c, p in conds:
                    try:
                        known.append(compared(c, e, A)[0](env) == p)
                    except Unknown:
                        unknown = True
                if not all(known):
                    continue
                x = compared(None, e, A)[1](env)
                if unknown:
                    sure = False
                else:
                    got, sure = (x, e), True
            except Unknown:
                sure = False
        if not sure:
            out = (None, "conditions not tracked", None)
            break
        if got is None or got[0] != sg:
            told = "a link ratio of %.9g, in a column with median %.9g, counts as %s instead of %d" % (v, m, "nothing" if got is None else "%g" % got[0], sg)
            out = (False, told, got[1] if got else es[0])
            break
    emit(rep, R, "a2a_assignment", fn, [out], "class of a link ratio", "a2a_assignment")


def ranked(rep, R, W, b, tri):
    """ranks of all link ratios of a column, and of those followed by another"""
    s = W.scn("ranked_a2a", b.st)
    try:
        s.attr(tri, "ranked_a2a")
        A = s.obj(s.attr(tri, "a2a")).rest.cell.term
    except (Failed, AttributeError) as e:
        rep.unk(R, "ranked_a2a", str(e))
        return
    evs = [e for e in s.events() if e.kind == "ranked"]
    last = 5

    def pos(t, j):
        k = T.key_of(t)
        if T.is_num(t):
            return T.num(t)
        if k and k[0] == "pos":
            return pos(k[1], j)
        if k and k[0] == "lastvalid" and k[1] == "O" and (len(k) == 2 or k[2] == A or T.key_of(A) and k[2] == T.key_of(A)[0]):
            return last
        if k and k[0] == "label" and k[1] == "O" or k == ("rn",):
            return j
        if t is not None and len(t) > 1:
            return sum(c * (pos(((m, T.F(1)),), j) if m else 1) for m, c in t)
        raise Unknown("rows that are ranked")

    def keeps(c, j):
        k = T.key_of(c)
        if k and k[0] == "not":
            return not keeps(k[1], j)
        if k and k[0] in ("and", "or"):
            return (all if k[0] == "and" else any)(keeps(x, j) for x in k[1:])
        if k and k[0] == "isnan":
            return False
        if k and k[0] == "cmp":
            a, b = pos(k[2], j), pos(k[3], j)
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[k[1]]
        raise Unknown("rows that are ranked")

    found, seen, orders, kinds = {}, set(), set(), {}
    for e in evs:
        k = T.key_of(e.data["term"]) if e.data["term"] is not None else None
        try:
            if not (k and k[0] == "at" and len(k) == 4 and T.same(k[1], A) and k[2] == "*"):
                raise Unknown("values that are ranked")
            opt = dict(e.data["opt"])
            if any(v is dom.NOC for v in opt.values()):
                raise Unknown("options of the ranks")
            rows = set(range(last + 1))
            if e.data["rows"] is not None:
                if e.data["rows"] not in miss.ROWS:
                    raise Unknown("rows that are ranked")
                for step in miss.ROWS[e.data["rows"]]:
                    if step[0] != "mask":
                        raise Unknown("rows that are ranked")
                    rows = {j for j in rows if keeps(step[1], j)}
            v = True, ""
            orders.add(opt.get("ascending", True))
            if opt.get("method", "average") != "average":
                v = False, "ranked by method %s: equal link ratios do not share their average rank" % opt["method"]
            elif opt.get("pct"):
                v = False, "ranked as fractions"
            elif opt.get("na_option", "keep") != "keep":
                v = False, "ranked with missing link ratios among them"
            elif len(rows) < last:
                v = False, "only %d of %d link ratios" % (len(rows), last + 1)
            elif len(rows) == last and last in rows:
                v = False, "all but the one of row %d of %d" % (min(set(range(last)) - rows) + 1, last + 1)
            else:
                seen.add(len(rows))
            kinds["rk:%s" % e.data["rows"]] = len(rows) - last
        except Unknown as x:
            v = None, str(x)
        found.setdefault((e.func, e.line), []).append((*v, e))
    for (fn, line), xs in sorted(found.items()):
        emit(rep, R, "ranks at line %s" % line, fn, [xs[0]], "the vector to be ranked", "ranked_a2a")
    if not evs or any(v is None for xs in found.values() for v, t, e in xs):
        rep.unk(R, "ranks of both members of a pair", "ranks not tracked")
    elif all(v for xs in found.values() for v, t, e in xs):
        ok = seen == {last, last + 1} and len(orders) == 1
        emit(rep, R, "ranks of both members of a pair", evs[0].func,
             [(ok, "in opposite orders" if len(orders) != 1 else "%s the last link ratio of the column in both cases" % ("without" if last in seen else "with"), evs[0])],
             "what is compared", "ranked_a2a")
        return paired(rep, R, s, evs, kinds)


def paired(rep, R, s, evs, kinds):
    """ranked columns side by side: those of link ratios that are followed by another, and those of the link ratios that follow them; the number in their labels"""
    funcs = {e.func for e in evs}
    mine = lambda kind: [e for e in s.events() if e.kind == kind and e.func in funcs]
    inst = "pairs of ranked columns"
    labels = {}
    for e in mine("relabel"):
        ks = {kinds.get(t) for t in e.data["tags"]}
        t = e.data["term"]
        a = [T.name_of(i) for i in T.atoms_in(t)] if t is not None else []
        if len(ks) == 1 and None not in ks and len(a) == 1 and (a[0][0] == "it" and a[0][1] == "pos" or a[0][0] == "rng"):
            labels.setdefault(ks.pop(), set()).add(t)
        else:
            labels.setdefault("?", set()).add(t)
    at = lambda t, i: sum(c * T.F(i) ** int(m[0][1][0] if m else 0) for m, c in t)
    label = None
    if set(labels) == {0, 1} and all(len(x) == 1 for x in labels.values()):
        cut, full = labels[0].pop(), labels[1].pop()
        ok = all(at(cut, i) == at(full, i + 1) for i in range(4))
        e = [x for x in mine("relabel")][0]
        emit(rep, R, "labels of ranked columns", e.func, [(ok, "numbered %s and %s" % (at(cut, 0), at(full, 1)), e)], "the pair of ranked columns", "ranked_a2a")
        label = (lambda i: float(at(cut, i))) if ok else None
    else:
        rep.unk(R, "labels of ranked columns", "labels not tracked")
    listed, cuts = mine("listed"), mine("cut")
    order = sorted({(e.line, kinds.get(e.data["what"])) for e in listed})
    if any(e.data["facts"] for e in listed) or len(order) != 2 or {k for _, k in order} != {0, 1} or len({x for x, _ in order}) != 2 or len(cuts) != 1:
        rep.unk(R, inst, "order of columns not tracked")
        return label
    lo, hi, step = cuts[0].data["by"]
    if step not in (None, 1) or not all(x is None or isinstance(x, int) for x in (lo, hi)):
        rep.unk(R, inst, "order of columns not tracked")
        return label
    D = 6
    cols = [(k, i) for i in range(D) for _, k in order][lo:hi]
    got = {frozenset(cols[2 * p:2 * p + 2]) for p in range(len(cols) // 2)}
    want = {frozenset(((0, i), (1, i + 1))) for i in range(D - 1)}
    emit(rep, R, inst, cuts[0].func, [(got == want, "cut to [%s:%s]: %s" % ("" if lo is None else lo, "" if hi is None else hi, "the last pair is lost" if got < want else "others are paired"), cuts[0])],
         "the list of ranked columns", "ranked_a2a")
    return label


def diagonals_visited(rep, R, W, b, r, tri):
    """link ratios are counted diagonal by diagonal: the origins of the last link ratios by development period are moved by one each time"""
    s = W.scn("calendar years", b.st)
    inst = "diagonals"
    try:
        A = s.obj(s.attr(tri, "a2a")).rest.cell.term
        s.meth(r, "cy_effects_test", p=Sc(Cell(dim=D0, dt="num", term=T.atom("p"))))
    except (Failed, AttributeError) as e:
        rep.unk(R, inst, str(e))
        return

    def back(t, root):
        """(how many rows further down the value of a row comes from, is it known)"""
        off = 0
        while t is not None:
            k = T.key_of(t)
            if not k:
                return None
            if k[0] == "SHIFT" and len(k) == 4 and isinstance(k[3], int):
                off, t = off - k[3], k[1]
            elif root(k):
                return off
            else:
                return None
        return None
    last = lambda k: k[0] == "lastvalid" and k[1] == "O" and (len(k) == 2 or k[2] == A or T.key_of(A) and k[2] == T.key_of(A)[0])
    found = []
    for e in s.events():
        if e.kind != "joined":
            continue
        o = [(lab, t) for p in e.data["keys"] for lab, t in p if lab == "O" and t is not None and back(t, last) is not None]
        if len(o) == 1:
            found.append((back(o[0][1], last), e))
        elif any(lab == "D" for p in e.data["keys"] for lab, t in p):
            rep.unk(R, inst, "diagonals not tracked")
            return
    if not found:
        rep.unk(R, inst, "diagonals not tracked")
        return
    if any(e.kind == "moved" and e.data["lab"] == "D" for e in s.events()):
        rep.unk(R, inst, "development periods are moved")
        return
    offs = sorted({x for x, e in found})
    ok = offs == list(range(len(offs))) and len(offs) > 2
    txt = ("never moved on from the first diagonal" if offs == [0] else "moved towards later origins, beyond the triangle" if offs[0] < 0 else
           "at first %d diagonals before the latest" % offs[0] if offs[0] > 0 else "moved by %s diagonals at a time" % "/".join(map(str, sorted({b - a for a, b in zip(offs, offs[1:])}))))
    emit(rep, R, inst, found[0][1].func, [(ok, txt, found[0][1])], "the diagonal whose link ratios are counted", "cy_effects_test")


@prop("C22")
def c22(rep, W):
    R = "test"
    rep.rule(R, "the interval and the statistic that a significance test returns are the published functions of p, of the number of link ratios below and above "
                "their median in every diagonal, and of the ranks of adjacent link ratios")
    R2 = "factors"
    rep.rule(R2, "a link ratio counts as large (+1) above the median of its development period, small (-1) below, and not (0) at it; ranks that are compared are those "
                 "of all link ratios of a period, and of those of the period before that are followed by another, ties sharing their average rank; classes are counted on one diagonal after the other, from the latest back")

    def run():
        keep = miss.AVG[0], miss.TST[0]
        miss.AVG[0] = miss.TST[0] = True
        miss.ROWS.clear()
        try:
            b, tri = W.tri("build")
            assigned(rep, R2, W, b, tri)
            label = ranked(rep, R2, W, b, tri)
            r = W.estimate(b, tri, "mack", True)
            diagonals_visited(rep, R2, W, b, r, tri)
            for name, points, what in TESTS:
                s = W.scn(name, b.st)
                construct = "MackChainLadderResult." + name
                try:
                    x = s.meth(r, name, p=Sc(Cell(dim=D0, dt="num", term=T.atom("p"))))
                    ts = parts(s, x)
                except (Failed, Unknown) as e:
                    for w in what:
                        rep.unk(R, "%s: %s" % (name, w), str(e))
                    continue
                for j, w in enumerate(what):
                    v, txt = judge(ts[j], j, lambda: points(label))
                    emit(rep, R, "%s: %s" % (name, w), construct, [(v, txt, None)], "%s: %s" % (name, w), name)
        finally:
            miss.AVG[0], miss.TST[0] = keep
            miss.ROWS.clear()
    form(W, rep, R, run)
