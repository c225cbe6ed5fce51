"""Formulas of the estimators, cell by cell: C24 C25 C26.

Every value of a table or vector is kept as a term over the cells it is computed from (miss.FORM): `at(table, row, column)` with
positions as polynomials in loop variables and n, the number of origins (equal to the number of development periods).  A formula is
judged by bringing both sides to a normal form and comparing them; a difference counts as a violation only when the term found consists
of published tables, vectors and cells alone."""
from .rules import *
from .sweep import *
from .rules_sweep import why
from . import miss

N = ROW = COL = None             # number of origins; any row, any column (made anew for every analysis)
ALL = "allO"


def form(W, rep, rule, f):
    """run f with formulas kept"""
    global N, ROW, COL
    N, ROW, COL = T.atom("n"), T.atom("it", "row", 0, 0), T.atom("it", "col", 0, 0)
    keep = miss.ON[0], miss.FORM[0]
    miss.ON[0] = miss.FORM[0] = True
    miss.VEC.clear()
    miss.DOM.clear()
    try:
        f()
    finally:
        miss.ON[0], miss.FORM[0] = keep
        miss.VEC.clear()
        miss.DOM.clear()


class Known:
    """normal form of terms over the tables of one estimate"""

    def __init__(self, C):
        self.C = C                                     # the observed amounts
        self.tables = {"a2a": -1, "a2aind": -1}        # key of a table or vector: length along development, relative to n
        self.names = {}
        self.extra = set()                             # further opaque values that are told apart

    def table(self, t, d, name):
        k = T.key_of(t)
        if k is not None:
            self.tables[k] = d
            self.names[k] = name
        return k

    # -- normal form ------------------------------------------------------
    def norm(self, t, depth=0):
        if t is None or depth > 12:
            return None
        return T.mapatoms(t, lambda a: self.atom(a, depth))

    def len(self, x):
        k = T.key_of(x)
        return self.tables.get(k if k is not None and len(k) > 1 else k[0] if k else None)

    def pos(self, p, x):
        """a position from the end is one from the front"""
        if isinstance(p, str):
            return p
        p = self.norm(p, 8)
        if p is not None and T.is_num(p) and T.num(p) < 0:
            d = self.len(x)
            if d is None:
                return p
            return T.add(T.add(N, T.const(d)), p)
        return p

    def atom(self, a, depth):
        key = T.key_of(a)
        f = key[0]
        if f == "a2a":
            return a
        if f == "at" and len(key) == 4:
            base, r, c = key[1], key[2], self.pos(key[3], key[1])
            if r is None or c is None:
                return None
            if not isinstance(r, str):
                r = self.norm(r, 8)
                if r is None:
                    return None
            b = T.key_of(base)
            if b and b[0] == "a2a" and not isinstance(c, str):
                return T.div(T.atom("at", self.C, r, T.add(c, T.ONE)), T.atom("at", self.C, r, c))
            if b and b[0] == "SHIFT" and len(b) == 4 and isinstance(b[3], int) and b[2] in ("O", "D"):
                q = T.sub(c if b[2] == "D" else r, T.const(b[3])) if not isinstance(c if b[2] == "D" else r, str) else None
                if q is not None:
                    return self.atom(T.atom("at", b[1], r if b[2] == "D" else q, q if b[2] == "D" else c), depth + 1)
            if b and b[0] == "poly":
                return None
            return T.atom("at", base, r, c)
        if f == "rng":
            lo, hi = self.norm(key[1], depth + 1), self.norm(key[3], depth + 1)
            if lo is None or hi is None or key[2] != T.ONE:
                return a
            return T.add(lo, T.atom("rng", T.const(0), T.ONE, T.sub(hi, lo)))
        if f in ("SUM", "MEAN", "GSUM") and len(key) == 3:
            x = self.norm(key[1], depth + 1)
            return flat(T.linear(f, indicator(x), key[2])) if x is not None else None
        if f in ("min", "max"):
            out = []
            todo = [x for x in key[1:] if T.is_term(x)]
            if len(todo) != len(key) - 1:
                return a
            while todo:
                x = todo.pop()
                k = T.key_of(x)
                if k and k[0] == f and all(T.is_term(y) for y in k[1:]):
                    todo.extend(k[1:])
                else:
                    y = self.norm(x, depth + 1)
                    if y is None:
                        return None
                    if y not in out:
                        out.append(y)
            return T.atom(f, *sorted(out)) if len(out) > 1 else out[0]
        if any(T.is_term(x) for x in key[1:]) and f not in ("it", "lastvalid", "firstvalid", "val", "tbl"):
            args = [self.norm(x, depth + 1) if T.is_term(x) else x for x in key[1:]]
            return T.atom(f, *args)
        return a

    def strangers(self, t, *key):
        """opaque values in a term other than cells of known tables"""
        own = set()
        for p in key:
            if p is not None and not isinstance(p, str):
                own |= {T.name_of(i) for i in T.atoms_in(p)}
        bad = []

        def walk(t, bound):
            for m, c in t:
                for i, e in m:
                    k = T.name_of(i)
                    f = k[0]
                    if k in self.extra:
                        pass
                    elif f == "poly":
                        walk(k[1], bound)
                    elif f == "at" and len(k) == 4:
                        b = T.key_of(k[1])
                        if b is None or not self.mine(b):
                            bad.append(k)
                        for p in k[2:]:
                            if not isinstance(p, str):
                                if T.is_num(p) and T.num(p) < 0:
                                    bad.append(k)
                                walk(p, bound)
                            elif p not in ("*",):
                                bad.append(k)
                    elif f in ("SUM", "MEAN") and len(k) == 3:
                        if k[2] != ALL and not (isinstance(k[2], str) and k[2].startswith("O:m:")):
                            bad.append(k)
                        walk(k[1], bound)
                    elif f == "GSUM":
                        walk(k[1], True)
                    elif f == "rng":
                        if not bound:
                            bad.append(k)
                        walk(k[1], bound), walk(k[3], bound)
                    elif f in ("min", "max", "abs", "pos"):
                        for x in k[1:]:
                            if T.is_term(x):
                                walk(x, bound)
                    elif f in ("n", "alpha") or self.mine(k):
                        pass
                    elif f == "it":
                        if k not in own:
                            bad.append(k)
                    else:
                        bad.append(k)
        walk(t, False)
        return bad

    def mine(self, k):
        return (k if len(k) > 1 else k[0]) in self.tables or k == T.key_of(self.C)


def indicator(t):
    """an amount that is 0 or 1 (where observed) is its own power"""
    if t is None:
        return None
    r = ()
    for m, c in t:
        fs = []
        for i, e in m:
            k = T.name_of(i)
            if (k == ("a2aind",) or k[0] == "at" and T.key_of(k[1]) == ("a2aind",)) and e[0] > 0 and e[1] == 0:
                e = (T.F(1), T.F(0))
            fs.append((i, e))
        r = T.add(r, ((tuple(sorted(fs)), c),))
    return r


def flat(t):
    """what does not vary over the rows is a factor of the sum over them"""
    def f(a):
        k = T.key_of(a)
        if k[0] != "SUM" or len(k) != 3 or len(k[1]) != 1:
            return a
        m, c = k[1][0]
        inn, out = [], []
        for i, e in m:
            x = T.name_of(i)
            (out if x[0] in ("SUM", "GSUM", "n") or x[0] == "at" and not isinstance(x[2], str) and x[2] != () and False else inn).append((i, e))
        if not out or not inn:
            return a
        return T.mul(((tuple(out), c),), T.atom("SUM", ((tuple(inn), T.F(1)),), k[2]))
    return T.mapatoms(t, f)


WEIGHTS = [False]        # only tell formulas apart that differ in nothing but the link-ratio selection


def unweighted(t):
    """the formula of a triangle in which every link ratio is selected"""
    def f(a):
        k = T.key_of(a)
        if k == ("a2aind",) or k[0] == "at" and T.key_of(k[1]) == ("a2aind",):
            return T.ONE
        if not any(T.is_term(y) for y in k[1:]):
            return a
        args = [unweighted(y) if T.is_term(y) else y for y in k[1:]]
        return T.linear(k[0], *args) if k[0] in ("SUM", "MEAN", "GSUM") else T.atom(k[0], *args)
    return T.mapatoms(t, f)


class Selected:
    """a report that receives, for one rule of another property, what is wrong with the selection only"""

    def __init__(self, rep, rule):
        self.rep, self.name = rep, rule

    def rule(self, *a):
        pass

    def locate(self, x):
        return self.rep.locate(x)

    def ok(self, rule, inst, *a):
        self.rep.ok(self.name, inst)

    def unk(self, rule, inst, why_):
        self.rep.unk(self.name, inst, why_)

    def event(self, rule, e, msg, construct):
        if " instead of " in msg:
            self.rep.event(self.name, e, msg + ": link ratios that are left out take part", construct)

    def bad(self, rule, construct, msg, at_, lab, inst=None):
        if " instead of " in msg:
            self.rep.bad(self.name, construct, msg + ": link ratios that are left out take part", at_, lab, inst=inst)


def selection(rep, W, rule):
    """does Mack's every formula use the link-ratio selection wherever it should?"""
    def run():
        WEIGHTS[0] = True
        try:
            mackforms(Selected(rep, rule), W, (rule,) * 5)
        finally:
            WEIGHTS[0] = False
    form(W, rep, rule, run)


def verdict(K, got, wants, key=()):
    """(True | False | None, text): is the term one of those expected?"""
    g = K.norm(got)
    ws = [K.norm(w) for w in wants]
    if g is None or not [w for w in ws if w is not None]:
        return None, "value not tracked"
    rs = [T.same(g, w) for w in ws if w is not None]
    if any(rs):
        return True, ""
    x = K.strangers(g, *key)
    if None in rs or x or None in ws:
        return None, "value not related to the published tables" + (": " + str(x[0])[:80] if x else "")
    if WEIGHTS[0] and not any(T.same(unweighted(g), unweighted(w)) for w in ws if w is not None):
        return None, "not the published formula"
    return False, "%s instead of %s" % (K.show(g), K.show([w for w in ws if w is not None][0]))


def decide(K, rep, rule, inst, construct, got, wants, msg, key=(), event=None, lab=""):
    v, txt = verdict(K, got, wants, key)
    return emit(rep, rule, inst, construct, [(v, txt, event)], msg, lab)


def emit(rep, rule, inst, construct, found, msg, lab):
    """one construct, judged in every state in which the analysis reaches it.  The states include the one before the first round of a
    loop, in which a value carried from round to round has a special form: only what is wrong in all of them is wrong"""
    vs = [v for v, t, e in found]
    if vs and all(v is True for v in vs):
        rep.ok(rule, inst)
        return True
    if vs and all(v is False for v in vs):
        v, txt, e = found[0]
        txt = "%s is %s" % (msg, txt)
        if e is not None:
            rep.event(rule, e, txt, construct)
        else:
            at = rep.locate(construct)
            rep.bad(rule, construct, txt, at if at[0] else None, lab, inst=inst)
        return False
    rep.unk(rule, inst, next((t for v, t, e in found if v is not True), "not tracked"))
    return None


def given(e, *ts):
    """terms under the equations about loop variables on the way to an assignment; whether anything else is asked of the loop variables of the first two"""
    own = {i for t in ts[:2] if t is not None and not isinstance(t, str) for i in T.atoms_in(t) if T.name_of(i)[0] == "it"}
    other = False
    for f, pol in sorted(e.data["facts"], key=repr):
        if not any(i in own for i in T.atoms_in(f)):
            continue
        k = T.key_of(f)
        while k and k[0] == "not":
            k, pol = T.key_of(k[1]), not pol
        x = None
        if k and k[0] == "cmp" and k[1] == ("Eq" if pol else "NotEq"):
            x = solution(T.sub(k[2], k[3]), own)
        if x is None:
            other = True
            continue
        ts = [t if t is None or isinstance(t, str) else T.mapatoms(t, lambda a: deep(a, *x)) for t in ts]
    return ts, other


def solution(d, own):
    """(loop variable, its value) when the term is zero"""
    for m, c in d or ():
        if len(m) == 1 and m[0][0] in own and m[0][1] == (T.F(1), T.F(0)) and abs(c) == 1:
            i = m[0][0]
            rest = T.sub(d, ((m, c),))
            if i not in T.atoms_in(rest):
                return T.atom(*T.name_of(i)), T.mul(T.const(-c), rest)
    return None


def deep(a, me, x):
    """the atom with a loop variable replaced by its value"""
    if a == me:
        return x
    k = T.key_of(a)
    if not any(T.is_term(y) for y in k[1:]):
        return a
    args = [T.mapatoms(y, lambda b: deep(b, me, x)) if T.is_term(y) else y for y in k[1:]]
    return T.linear(k[0], *args) if k[0] in ("SUM", "MEAN", "GSUM") else T.atom(k[0], *args)


def show(K, t):
    s = T.show(t, 9)
    for k, n in list(K.names.items()) + [(T.key_of(K.C), "C")]:
        s = s.replace(T.show(T.atom(*k), 9), n)
    return s.replace(", allO)", ")")[:260]


Known.show = show


def whole(o):
    """the term of a table's ordinary cells or of a vector"""
    if isinstance(o, Frame):
        c = o.rest.cell if o.rest is not None else None
    else:
        c = getattr(o, "cell", None)
    return c.term if c is not None else None


def sites(es):
    d = {}
    for e in es:
        d.setdefault((e.func, e.line), []).append(e)
    return sorted(d.items())


def stores(s, kind, table):
    return [e for e in s.events() if e.kind == kind and e.data["table"] == table]


def lastobs(c):
    """one past the last observed row of column c"""
    return T.add(T.atom("at", T.atom("pos", T.atom("lastvalid", "O")), "*", c), T.const(1))


def at(t, r, c):
    return miss.compose(t, r, c)


# ------------------------------------------------------------------ C24
def variants24():
    yield "base", "", {}
    yield "base", "tail=1.1", {"tail": k(1.1)}
    yield "base", "sel=medial-5", {"sel": k("medial-5")}
    yield "mack", "", {}
    yield "mack", "alpha", {"alpha": Sc(Cell(dim=D0, dt="num", term=T.atom("alpha")))}
    yield "boot", "", {}
    yield "base", "tail=any number", {"tail": Sc(Cell(dim=D0, dt="num", term=T.atom("tail")))}
    yield "boot", "sims=any number", {"sims": Sc(Cell(dim=D0, dt="pyint", term=T.atom("sims")))}


def fields(W, b, tri, which, lab, kw):
    """(scenario, {field: object}) of an estimate, or None"""
    s = W.scn(lab, b.st)
    try:
        r = W.estimate(s, tri, which, True, **kw)
    except Failed as e:
        return None, why(e)
    o = s.obj(r) if isinstance(r, Ref) else None
    if not isinstance(o, Inst):
        return None, "result object not tracked"
    f = {a: s.obj(v) if isinstance(v, Ref) else v for a, v in o.attrs.items()}
    return s, f


@prop("C24")
def c24(rep, W):
    R1, R2, R3, R4 = "projected-cell", "projected-rows", "ultimate-column", "fitted-triangle"
    rep.rule(R1, "every cell that is put into the projected triangle is the projected cell one development period earlier of the same origin times the "
                 "factor of that earlier development period")
    rep.rule(R2, "the rows assigned in a development period are exactly those after its last observation, and every development period but the first is visited")
    rep.rule(R3, "the projected triangle's ultimate column is its last development period times the last factor")
    rep.rule(R4, "every cell put into the bootstrap's fitted cumulative triangle is the fitted cell one development period later of the same origin divided by the "
                 "factor of the cell's own development period; the fitted incremental triangle's first development period is the cumulative one's")

    def run():
        b, tri = W.tri("build")
        C = whole(b.obj(tri))
        for which, vn, kw in variants24():
            lab = "%s(%s)" % (which, vn)
            s, f = fields(W, b, tri, which, lab, kw)
            if s is None:
                rep.unk(R1, lab, f)
                continue
            K = Known(C)
            P, ld = whole(f.get("trisqrd")), whole(f.get("ldfs"))
            judge24(rep, W, lab, s, f, K, P, ld, (R1, R2, R3))
            if which == "boot":
                fitted(rep, W, lab, s, f, K, ld, R4)
    form(W, rep, R1, run)


def judge24(rep, W, lab, s, f, K, P, ld, rules):
    R1, R2, R3 = rules
    if P is None or T.key_of(P) is None or ld is None:
        rep.unk(R1, lab, "projected triangle or factors not tracked")
        return
    K.table(P, 0, "projected")
    if T.key_of(ld) is not None:
        K.table(ld, 0, "ldfs")
    es = stores(s, "cellstore", P)
    sites = {}
    for e in es:
        sites.setdefault((e.func, e.line), []).append(e)
    if not es:
        rep.unk(R1, lab, "projection not tracked")
    for (fn, line), ev in sorted(sites.items()):
        inst = "%s %s:%s" % (lab, fn, line)
        carried = False
        found = []
        for e in ev:
            ((r, c, got), other) = given(e, *e.data["key"], e.data["term"])
            if r is None or c is None or isinstance(c, str):
                found.append((None, "assigned cell not tracked", e))
                carried = True
                continue
            q = "*" if isinstance(r, str) or T.fn_of(r) == "sl" else r
            prev = T.sub(c, T.ONE)
            fac = miss.at1(ld, prev)
            want = T.mul(at(P, q, prev), fac)
            first = T.mul(at(K.C, q, prev), fac)
            ok, txt = verdict(K, got, [want, first], (r, c))
            found.append((None if ok is False and other else ok, txt, e))
            if not ok or T.same(K.norm(got), K.norm(want)):
                carried = True
            rows(rep, R2, inst, fn, e, r, c, lab)
        emit(rep, R1, inst, "%s: projected cell" % fn, found, "%s: a projected cell" % lab, lab)
        if not carried:
            rep.event(R1, ev[0], "cells are projected from observed amounts only, so that nothing follows on a projected cell", "%s: projected cell" % fn)
    o = f["trisqrd"]
    u = o.cols.get("ultimate") if isinstance(o, Frame) else None
    if u is not None and u.cell is not None:
        decide(K, rep, R3, lab + " ultimate", "trisqrd ultimate column", u.cell.term, [T.mul(at(P, "*", T.const(-1)), miss.at1(ld, T.const(-1)))],
               "%s: the ultimate column" % lab, (), None, lab)
    elif u is None and isinstance(o, Frame) and "ultimate" not in o.cols:
        rep.ok(R3, lab + " no ultimate column")


def rows(rep, rule, inst, fn, e, r, c, lab):
    """are the rows those after the last observation, and are all development periods visited?"""
    key = T.key_of(r) if not isinstance(r, str) else None
    if key and key[0] == "sl":
        lo, hi = key[1], key[2]
        want = lastobs(c)
        if lo == want and (hi == N or T.fn_of(hi) == "end"):
            rep.ok(rule, inst)
        elif number(T.sub(lo, want)) and (number(T.sub(hi, N)) or T.fn_of(hi) == "end"):
            rep.event(rule, e, "the rows from %s on are assigned instead of those after the last observation" % T.show(lo, 5) if lo != want
                      else "the rows up to %s are assigned instead of all" % T.show(hi, 5), "%s: projected rows" % fn)
        else:
            rep.unk(rule, inst, "rows not tracked")
    else:
        rep.unk(rule, inst, "rows not tracked")
    dom = domain(c)
    if dom is None:
        rep.unk(rule, inst + " periods", "visited development periods not tracked")
    elif leq(dom[0], T.ONE) and leq(N, dom[1]):
        rep.ok(rule, inst + " periods")
    elif leq(T.const(2), dom[0]) or leq(dom[1], T.sub(N, T.ONE)):
        rep.event(rule, e, "development periods %s to %s are projected instead of all but the first" % (T.show(T.add(dom[0], T.ONE)), T.show(dom[1])), "%s: projected periods" % fn)
    else:
        rep.unk(rule, inst + " periods", "visited development periods not tracked")


def number(t):
    return t is not None and T.is_num(t)


def leq(a, b):
    d = T.sub(b, a)
    return d is not None and T.is_num(d) and T.num(d) >= 0


def domain(p, drop=()):
    """(first, last + 1) of the values a position takes, in terms of n and of other loop variables"""
    if p is None or isinstance(p, str):
        return None
    vs = [i for i in T.atoms_in(p) if T.name_of(i)[0] == "it"]
    if not vs:
        return (p, T.add(p, T.ONE))
    for i in vs:
        me = T.atom(*T.name_of(i))
        dom = miss.DOM.get(T.name_of(i))
        if dom is None:
            continue
        sub = lambda x: T.mapatoms(p, lambda a: x if a == me or T.key_of(a)[0] == "pos" and T.key_of(a)[1] == me else a)
        lo, hi = sub(dom[0]), sub(T.sub(dom[1], T.ONE))
        d = T.sub(sub(T.const(2)), sub(T.ONE))
        if d == T.ONE:
            return (lo, T.add(hi, T.ONE))
        if d == T.const(-1):
            return (hi, T.add(lo, T.ONE))
    return None


def fitted(rep, W, lab, s, f, K, ld, R4):
    F = whole(f.get("fitted_tri_cum"))
    if F is None or T.key_of(F) is None or ld is None:
        rep.unk(R4, lab, "fitted triangle not tracked")
        return
    K.table(F, 0, "fitted")
    sites = {}
    for e in stores(s, "cellstore", F):
        if e.data["term"] != T.atom("NaN"):
            sites.setdefault((e.func, e.line), []).append(e)
    if not sites:
        rep.unk(R4, lab, "fitting not tracked")
    for (fn, line), ev in sorted(sites.items()):
        inst = "%s %s:%s" % (lab, fn, line)
        carried = False
        found = []
        for e in ev:
            ((r, c, got), other) = given(e, *e.data["key"], e.data["term"])
            if r is None or c is None or isinstance(c, str):
                found.append((None, "assigned cell not tracked", e))
                carried = True
                continue
            nxt = T.add(c, T.ONE)
            fac = T.inv(miss.at1(ld, c))
            want, first = T.mul(at(F, r, nxt), fac), T.mul(at(K.C, r, nxt), fac)
            ok, txt = verdict(K, got, [want, first], (r, c))
            found.append((None if ok is False and other else ok, txt, e))
            if not ok or T.same(K.norm(got), K.norm(want)):
                carried = True
        emit(rep, R4, inst, "%s: fitted cell" % fn, found, "%s: a fitted cell" % lab, lab)
        if not carried:
            rep.event(R4, ev[0], "cells are fitted from observed amounts only", "%s: fitted cell" % fn)
    G = whole(f.get("fitted_tri_incr"))
    if G is None or T.key_of(G) is None:
        rep.unk(R4, lab + " incremental", "fitted incremental triangle not tracked")
        return
    K.table(G, 0, "fitted incremental")
    for e in stores(s, "cellstore", G):
        r, c = e.data["key"]
        if r == "*" and c == T.const(0):
            decide(K, rep, R4, "%s incremental first" % lab, "%s: first fitted incremental" % e.func, e.data["term"], [at(F, "*", T.const(0))],
                   "%s: the first incremental fitted amount" % lab, (), e, lab)
        else:
            rep.unk(R4, "%s incremental" % lab, "assigned cell not tracked")


# ------------------------------------------------------------------ C25
@prop("C25")
def c25(rep, W):
    R1, R2, R3, R4, R5 = "mack-factors", "mack-sigma", "mack-process-error", "mack-parameter-error", "mack-total"
    rep.rule(R1, "every Mack factor is the sum over origins of w*C^alpha*F divided by the sum of w*C^alpha, F being the observed age-to-age ratio and w its 0/1 weight")
    rep.rule(R2, "the variance parameter of development period p (of n) is the sum of w*C^alpha*(F-f)^2 divided by n-p-2 (p counted from 0), that of the last one "
                 "min(a^2/b, a, b) of the two before it (a the later); the factor's variance is it divided by the sum of w*C^alpha")
    rep.rule(R3, "the process error of the first projected cell of an origin is the latest amount^(2-alpha) times the variance parameter of its period; of every "
                 "later one f^2 times the process error before it plus projected^(2-alpha) times the variance parameter")
    rep.rule(R4, "the parameter error of the first projected cell is the latest amount squared times the factor's variance; of every later one (f^2 + factor's "
                 "variance) times the parameter error before it plus projected^2 times the factor's variance")
    rep.rule(R5, "the total row's squared standard error is the sum over origins of mean squared error + 2 * ultimate * sum of later origins' ultimates * sum over "
                 "projected periods of variance parameter / f^2 / sum of w*C^alpha")

    form(W, rep, R1, lambda: mackforms(rep, W, (R1, R2, R3, R4, R5)))


def mackforms(rep, W, rules):
    b, tri = W.tri("build")
    C = whole(b.obj(tri))
    al = Sc(Cell(dim=D0, dt="num", term=T.atom("alpha")))
    for vn, kw, e in (("alpha", {"alpha": al}, (T.F(0), T.F(1))), ("", {}, (T.F(1), T.F(0))), ("alpha=2", {"alpha": k(2)}, (T.F(2), T.F(0))),
                      ("alpha=0", {"alpha": k(0)}, (T.F(0), T.F(0)))):
        lab = "mack(%s)" % vn
        s, f = fields(W, b, tri, "mack", lab, kw)
        if s is None:
            rep.unk(rules[0], lab, f)
            continue
        judge25(rep, W, lab, s, f, C, e, rules, s.obj(tri))


def judge25(rep, W, lab, s, f, C, al, rules, tri):
    R1, R2, R3, R4, R5 = rules
    K = Known(C)
    fn = "MackChainLadder"
    ld, dv, lv, P = (whole(f.get(a)) for a in ("ldfs", "devpvar", "ldfvar", "trisqrd"))
    w, F = T.atom("a2aind"), T.atom("a2a")
    Ca = lambda x: T.power(x, al) if al != (0, 0) else T.ONE
    two = (T.F(2) - al[0], -al[1])
    W_ = T.mul(w, Ca(C))
    p = COL
    sw = T.linear("SUM", at(W_, "*", p), ALL)
    num = T.linear("SUM", at(T.mul(W_, F), "*", p), ALL)
    if ld is None:
        rep.unk(R1, lab, "factors not tracked")
        return
    decide(K, rep, R1, lab + " ldfs", "%s ldfs" % fn, miss.at1(ld, p), [T.div(num, sw)], "%s: a factor" % lab, (p,), None, lab)
    if T.key_of(ld) is not None:
        K.table(ld, 0, "ldfs")
    fac = T.div(num, sw)
    # variance parameters
    if dv is None or T.key_of(dv) is None:
        rep.unk(R2, lab + " devpvar", "variance parameters not tracked")
    else:
        K.table(dv, -1, "devpvar")
        for (fn_, line), ev in sites(stores(s, "vecstore", dv)):
            inst = "%s devpvar %s:%s" % (lab, fn_, line)
            found, last = [], False
            for e in ev:
                ((c, _, got), other) = given(e, e.data["key"], None, e.data["term"])
                if c is None or isinstance(c, str):
                    found.append((None, "assigned value not tracked", e))
                    continue
                if c == T.const(-1) or c == T.sub(N, T.const(2)):
                    last = True
                    a, b2 = miss.at1(dv, T.const(-2)), miss.at1(dv, T.const(-3))
                    q = T.div(T.mul(a, a), b2)
                    # a < b implies a^2/b < a: the middle one is never needed (variances are not negative)
                    want = [T.atom("min", q, a, b2), T.atom("min", q, b2)]
                else:
                    f1 = T.div(T.linear("SUM", at(T.mul(W_, F), "*", c), ALL), T.linear("SUM", at(W_, "*", c), ALL))
                    want = []
                    for q in (f1, miss.at1(ld, c)):
                        d = T.sub(at(F, "*", c), q)
                        t = T.linear("SUM", T.mul(at(W_, "*", c), T.mul(d, d)), ALL)
                        want.append(T.div(t, T.sub(T.sub(N, c), T.const(2))) if t is not None else None)
                    want = [x for x in want if x is not None]
                ok, txt = verdict(K, got, want, (c,))
                found.append((None if ok is False and other else ok, txt, e))
            emit(rep, R2, inst, "%s: %svariance parameter" % (fn_, "last " if last else ""), found, "%s: %s variance parameter" % (lab, "the last" if last else "a"), lab)
    if lv is None or T.key_of(lv) is None or dv is None:
        rep.unk(R2, lab + " ldfvar", "variance of the factors not tracked")
    else:
        K.table(lv, -1, "ldfvar")
        for (fn_, line), ev in sites(stores(s, "vecstore", lv)):
            inst = "%s ldfvar %s:%s" % (lab, fn_, line)
            found = []
            for e in ev:
                ((c, _, got), other) = given(e, e.data["key"], None, e.data["term"])
                if c is None or isinstance(c, str):
                    found.append((None, "assigned value not tracked", e))
                    continue
                ok, txt = verdict(K, got, [T.div(miss.at1(dv, c), T.linear("SUM", at(W_, "*", c), ALL))], (c,))
                found.append((None if ok is False and other else ok, txt, e))
            emit(rep, R2, inst, "%s: variance of a factor" % fn_, found, "%s: the variance of a factor" % lab, lab)
    # errors of the cells
    if P is None or T.key_of(P) is None:
        rep.unk(R3, lab, "projected triangle not tracked")
        return
    K.table(P, 0, "projected")
    tabs = {}
    for name, rule in (("process_error", R3), ("parameter_error", R4)):
        x = whole(f.get(name))
        key = T.key_of(x)
        if not key or key[0] != "at" or T.key_of(key[1]) is None or key[2] != "*":
            rep.unk(rule, lab + " " + name, name + " not tracked")
            continue
        E = key[1]
        K.table(E, 0, name)
        tabs[name] = E
        decide(K, rep, rule, "%s %s of an origin" % (lab, name), "%s %s" % (fn, name), x, [T.atom("at", E, "*", T.const(-1))], "%s: %s of an origin" % (lab, name), (), None, lab)
    for name, rule, par, exp in (("process_error", R3, dv, two), ("parameter_error", R4, lv, (T.F(2), T.F(0)))):
        if name not in tabs or par is None:
            continue
        E = tabs[name]
        es = stores(s, "cellstore", E)
        for (fn_, line), ev in sites(es):
            inst = "%s %s %s:%s" % (lab, name, fn_, line)
            found, first = [], False
            for e in ev:
                ((r, c, got), other) = given(e, *e.data["key"], e.data["term"])
                if any(x is None or isinstance(x, str) or T.fn_of(x) == "sl" for x in (r, c)):
                    found.append((None, "assigned cell not tracked", e))
                    continue
                q = T.sub(c, T.ONE)
                pw = lambda x: T.power(x, exp) if exp != (0, 0) else T.ONE
                base = [T.mul(pw(at(t, r, q)), miss.at1(par, q)) for t in (P, C)]
                fq = T.mul(miss.at1(ld, q), miss.at1(ld, q))
                if name == "parameter_error":
                    fq = T.add(fq, miss.at1(par, q))
                recs = [T.add(T.mul(fq, at(E, r, q)), base[0])]
                if T.sub(c, T.sub(N, r)) == ():
                    first = True
                    ok, txt = verdict(K, got, base + recs, (r, c))
                else:
                    dom = domain(c)
                    ok, txt = verdict(K, got, recs, (r, c))
                    lo = T.sub(dom[0], T.sub(N, r)) if dom is not None else None
                    hi = T.sub(N, dom[1]) if dom is not None else None
                    if not number(lo) or not number(hi) or other:
                        rep.unk(rule, inst + " range", "visited development periods not tracked")
                    elif T.num(lo) > 1 or T.num(hi) > 0:
                        rep.event(rule, e, "%s is computed for development periods %s to %s only" % (name, T.show(dom[0]), T.show(dom[1])), "%s: %s range" % (fn_, name))
                    else:
                        rep.ok(rule, inst + " range")
                found.append((None if ok is False and other else ok, txt, e))
                dr = domain(r)
                if dr is None or other:
                    rep.unk(rule, inst + " origins", "visited origins not tracked")
                elif number(dr[0]) and T.num(dr[0]) > 1 or number(T.sub(N, dr[1])) and T.num(T.sub(N, dr[1])) > 0:
                    rep.event(rule, e, "%s is computed for origins %s to %s only" % (name, T.show(dr[0]), T.show(dr[1])), "%s: %s origins" % (fn_, name))
                elif leq(dr[0], T.ONE) and leq(N, dr[1]):
                    rep.ok(rule, inst + " origins")
                else:
                    rep.unk(rule, inst + " origins", "visited origins not tracked")
            emit(rep, rule, inst, "%s: %s%s" % (fn_, "first " if first else "", name), found,
                 "%s: %s of %s projected cell" % (lab, name, "an origin's first" if first else "a"), lab)
        if not es:
            rep.unk(rule, lab + " " + name, "recursion not tracked")
    total(rep, W, R5, lab, s, f, K, C, W_, dv, ld, P, tabs, tri, al)


def total(rep, W, R5, lab, s, f, K, C, W_, dv, ld, P, tabs, tri, al):
    summ = f.get("summary")
    sd = summ.cols.get("std_error") if isinstance(summ, Frame) else None
    tot = None
    for a, c in (sd.special.items() if sd is not None else ()):
        if a == "total" or getattr(a, "const", None) == "total" or str(a) == "total":
            tot = c.term if c is not None else None
    sq = T.mul(tot, tot) if tot is not None else None
    key = T.key_of(sq)
    if not key or key[0] != "SUM" or key[2] != ALL or T.key_of(key[1]) is None:
        rep.unk(R5, lab, "standard error of the total not tracked")
        return
    M = key[1]
    es = stores(s, "vecstore", M)
    if not es or len(tabs) < 2 or dv is None:
        rep.unk(R5, lab, "mean squared error of the total not tracked")
        return
    U = whole(f.get("ultimate"))
    cl = T.atom("CUMBACK", ld)
    lt = whole(tri.attrs.get("_latest_by_origin")) if isinstance(tri, Frame) and not isinstance(tri.attrs.get("_latest_by_origin"), Ref) else None
    found = {}
    for e in es:
        ((r, _, got), other) = given(e, e.data["key"], None, e.data["term"])
        here = found.setdefault((e.func, e.line), [])
        if r is None or isinstance(r, str) or got is None:
            here.append((None, "assigned value not tracked", e))
            continue
        wants = []
        for X in ultimates(got):
            Xr = miss.at1(X, r)
            for x in (X, Xr, K.norm(X), K.norm(Xr)):
                K.extra |= {T.name_of(i) for m, c in x or () for i, e in m if T.name_of(i)[0] not in ("SUM", "GSUM", "poly")}
            for it in [T.atom(*T.name_of(i)) for i in T.atoms_in(r) if T.name_of(i)[0] == "it"]:
                later = T.linear("SUM", X, "O:m:Gt:%s" % T.show(it, 3))
                j = T.atom("rng", T.sub(T.sub(N, T.ONE), r), T.ONE, T.sub(N, T.ONE))
                fj = miss.at1(ld, j)
                q = T.div(miss.at1(dv, j), T.mul(fj, fj)) if fj is not None else None
                m = T.atom("rng", T.const(0), T.ONE, T.sub(T.sub(N, T.ONE), j))
                for tab in (P, C):
                    cm = T.power(at(tab, m, j), al) if al != (0, 0) else T.ONE
                    inner = T.atom("GSUM", T.mul(T.atom("at", T.atom("a2aind"), m, j), cm), "range")
                    g = T.linear("GSUM", T.div(q, inner), "range") if q is not None else None
                    wants.append(T.add(T.add(at(tabs["process_error"], r, T.const(-1)), at(tabs["parameter_error"], r, T.const(-1))),
                                       T.mul(T.const(2), T.mul(Xr, T.mul(later, g)))) if None not in (Xr, later, g) else None)
                inner = T.linear("SUM", at(W_, "*", j), ALL)
                g = T.linear("GSUM", T.div(q, inner), "range") if q is not None and inner is not None else None
                if None not in (Xr, later, g):
                    wants.append(T.add(T.add(at(tabs["process_error"], r, T.const(-1)), at(tabs["parameter_error"], r, T.const(-1))), T.mul(T.const(2), T.mul(Xr, T.mul(later, g)))))
        wants = [x for x in wants if x is not None]
        ok, txt = verdict(K, got, wants, (r,))
        here.append((None if ok is False and other else ok, txt, e))
    for (fn, line), here in sorted(found.items()):
        emit(rep, R5, "%s %s:%s" % (lab, fn, line), "%s: mean squared error for the total" % fn, here, "%s: an origin's part of the total's squared standard error" % lab, lab)


def ultimates(t):
    """what is summed over the later origins"""
    return [T.name_of(i)[1] for i in T.atoms_in(t) if T.name_of(i)[0] == "SUM" and isinstance(T.name_of(i)[2], str) and T.name_of(i)[2].startswith("O:m:")]


# ------------------------------------------------------------------ C26
PLAIN = ("abs", "poly", "ite", "cmp", "sign", "min", "max", "SUM", "TOTAL", "MEAN", "STD", "VAR")
PUBLISHED = ("incr", "incr_sqrt", "resid", "samp_incr", "samp_cum", "var", "sign", "param1", "param2", "final_incr", "ultimate", "reserve", "latest", "ldf", "l_act_cum")


def grand(t):
    """the sum over both axes of a table, whichever first"""
    def f(a):
        k = T.key_of(a)
        if k[0] == "SUM" and len(k) == 3:
            i = T.mapatoms(k[1], f)
            j = T.key_of(i)
            if j and j[0] == "SUM" and len(j) == 3 and {j[2], k[2]} == {"allO", "allD"}:
                return T.atom("TOTAL", j[1])
            return T.linear("SUM", i, k[2])
        if k[0] in PLAIN and any(T.is_term(x) for x in k[1:]):
            return T.atom(k[0], *[T.mapatoms(x, f) if T.is_term(x) else x for x in k[1:]])
        return a
    return T.mapatoms(t, f) if t is not None else None


def signs(atoms, positive=None):
    """assignments at which the given atoms take either sign and a value is positive"""
    positive = grand(positive)
    T.SIGNED.clear()
    T.SIGNED.update(T.atom_id(T.key_of(a)) for a in atoms if T.key_of(a) is not None)
    out = []
    for s in range(1000, 1400):
        v = T.value(positive, s) if positive is not None else 1
        if v is not None and abs(complex(v).imag) < 1e-9 and complex(v).real > 0:
            out.append(s)
        if len(out) == 9:
            break
    return out


def compare(got, wants, known, seeds, show):
    """(True | False | None, text): equal at all assignments to one of the wanted values?  Only a value made of known ones is wrong"""
    g = grand(got)
    ws = [grand(w) for w in wants]
    if g is None or None in ws:
        return None, "value not tracked"
    rs = [T.same(g, w, seeds) for w in ws]
    if any(rs):
        return True, ""
    allowed = set()
    for t in known:
        allowed |= T.atoms_in(grand(t)) | T.atoms_in(t)
    odd = [T.name_of(i) for i in T.atoms_in(g) if i not in allowed and T.name_of(i)[0] not in PLAIN]
    if odd or None in rs or not seeds:
        return None, "value not related to the published ones" + (": " + str(odd[0])[:80] if odd else "")
    return False, "%s instead of %s" % (show(g), show(ws[0]))


@prop("C26")
def c26(rep, W):
    R1, R2, R3, R4, R5 = "pearson-residuals", "adjusted-residuals", "scale", "resampled-amounts", "process-error"
    rep.rule(R1, "the unscaled residual of a cell is (observed - fitted increment) / sqrt(|fitted increment|)")
    rep.rule(R2, "the adjusted residual of a cell is its unscaled residual times sqrt(number of cells / degrees of freedom)")
    rep.rule(R3, "the scale parameter is the sum of the squared unscaled residuals over all cells divided by the degrees of freedom")
    rep.rule(R4, "a resampled incremental amount is the fitted one plus a residual times the square root of the fitted one's absolute value")
    rep.rule(R5, "the process variance of an amount is its absolute value times the scale parameter; the gamma draws have the amount's absolute value as "
                 "their mean and the process variance as their variance; their sign is the amount's")

    def run():
        b, tri = W.tri("build")
        for vn, kw in (("", {}), ("parametric", {"parametric": k(True)}), ("any number of sims", {"sims": WHOLE("sims")(None)})):
            judge26(rep, W, b, tri, "boot(%s)" % vn, kw, (R1, R2, R3, R4, R5))
    form(W, rep, R1, run)


def judge26(rep, W, b, tri, lab, kw, rules):
    R1, R2, R3, R4, R5 = rules
    s, f = fields(W, b, tri, "boot", lab, kw)
    if s is None:
        rep.unk(R1, lab, f)
        return
    show = lambda t: T.show(t, 5)[:260]
    try:
        inc, nc = s.meth(tri, "to_incr"), s.attr(tri, "nbr_cells")
    except Failed as e:
        rep.unk(R1, lab, why(e))
        return
    I, G = whole(s.obj(inc)), whole(f.get("fitted_tri_incr"))
    us, adj = whole(f.get("unscaled_residuals")), whole(f.get("adjusted_residuals"))
    S, dof = [getattr(f.get(a), "cell", None) and f[a].cell.term for a in ("scale_param", "dof")]
    nb = nc.cell.term if isinstance(nc, Sc) else None
    B = "trikit.estimators.bootstrap.BootstrapChainLadder."

    def put(rule, what, got, wants, known, seeds, construct, event=None):
        if any(x is None for x in wants):
            v, txt = None, "operands not tracked"
        else:
            v, txt = compare(got, wants, known, seeds, show)
        return emit(rep, rule, "%s %s" % (lab, what), construct, [(v, txt, event)], "%s: %s" % (lab, what), lab)
    # residuals
    known = (I, G, nb, dof)
    sg = signs((I, G))
    want = T.div(T.sub(I, G), T.power(T.atom("abs", G), (T.F(1, 2), T.F(0)))) if None not in (I, G) else None
    put(R1, "an unscaled residual", us, [want], known, sg, B + "_resid_us")
    fac = T.power(T.div(nb, dof), (T.F(1, 2), T.F(0))) if None not in (nb, dof) else None
    put(R2, "an adjusted residual", adj, [T.mul(x, fac) if None not in (x, fac) else None for x in (us or want,)], known, sg, B + "_resid_adj")
    sq = T.mul(us, us) if us is not None else None
    tot = T.linear("SUM", T.linear("SUM", sq, "allO"), "allD") if sq is not None else None
    put(R3, "the scale parameter", S, [T.div(tot, dof) if None not in (tot, dof) else None], known + (tot, sq), sg, B + "_scale_param")
    sampled(rep, R4, lab, s, f, us, adj, sg, I, G, nb, dof)
    # resampled amounts
    evs = [e for e in s.events() if e.kind == "colstore"]
    half = (T.F(1, 2), T.F(0))
    done = {}
    for (fn, line), es in sites(evs):
        for e in es:
            key, t, c = e.data["key"], e.data["term"], e.data["cols"]
            inc, res, rt = c.get("incr"), c.get("resid"), c.get("incr_sqrt")
            if key == "incr_sqrt" and inc is not None:
                done["root"] = put(R4, "the square root of a fitted amount (%s:%s)" % (fn, line), t, [T.power(T.atom("abs", inc), half)], (inc,), signs((inc,)), fn, e)
            elif key == "samp_incr" and None not in (inc, res) and related(t, (inc, res, rt)):
                wants = [T.add(inc, T.mul(res, x)) for x in (rt, T.power(T.atom("abs", inc), half)) if x is not None]
                done["samp"] = put(R4, "a resampled amount (%s:%s)" % (fn, line), t, wants, (inc, res, rt), signs((inc, res)), fn, e)
            elif key == "var" and c.get("samp_incr") is not None:
                x = c["samp_incr"]
                y, (t2, w2) = alias(x, t, T.mul(T.atom("abs", x), S) if S is not None else None)
                done["var"] = put(R5, "the process variance of an amount (%s:%s)" % (fn, line), t2, [w2], (y, S), signs((y,), S), fn, e)
            elif key == "sign" and c.get("samp_incr") is not None:
                x = c["samp_incr"]
                y, (t2,) = alias(x, t)
                done["sign"] = put(R5, "the sign of a draw (%s:%s)" % (fn, line), t2, [T.atom("sign", y)], (y, T.ONE), signs((y,)), fn, e)
    for e in s.events():
        if e.kind == "draw" and e.data["dist"] == "gamma" and "terms" in e.data:
            nm = e.data["named"]
            ts = list(e.data["terms"]) + [None, None]
            a, sc_ = ts[0] if ts[0] is not None else nm.get("shape"), ts[1] if ts[1] is not None else nm.get("scale")
            what = "%s:%s" % (e.func, e.line)
            mean, var = (T.mul(a, sc_), T.mul(a, T.mul(sc_, sc_))) if None not in (a, sc_) else (None, None)
            x = amount(mean, S)
            if x is None:
                rep.unk(R5, "%s gamma %s" % (lab, what), "parameters not tracked")
                continue
            done["gamma"] = True
            n = T.key_of(x)[-1]
            if n in PUBLISHED and n not in ("samp_incr", "var"):
                rep.event(R5, e, "%s: the mean of a draw is %s instead of the sampled increment" % (lab, n), e.func)
            sg = signs((x,), S)
            size, spread = T.atom("abs", x), None
            if n == "var":
                size, spread, sg = (T.div(size, S) if S is not None else None), size, signs((), S)
            put(R5, "the mean of a draw (%s)" % what, mean, [size], (x, S), sg, e.func, e)
            put(R5, "the variance of a draw (%s)" % what, var, [spread or (T.mul(size, S) if S is not None else None)], (x, S), sg, e.func, e)
    for w, rule in (("samp", R4), ("var", R5), ("gamma", R5)):
        if w not in done:
            rep.unk(rule, "%s: %s" % (lab, w), "computation not found")


def bare(t):
    """the values of a flattened part of a table as those of the table; (term, set of parts)"""
    parts = set()

    def f(a):
        k = T.key_of(a)
        if k[0] == "flat":
            return T.mapatoms(k[1], f)
        if k[0] == "sub":
            parts.add(k[2:])
            return T.mapatoms(k[1], f)
        if k[0] in PLAIN and any(T.is_term(x) for x in k[1:]):
            return T.atom(k[0], *[T.mapatoms(x, f) if T.is_term(x) else x for x in k[1:]])
        return a
    return T.mapatoms(t, f) if t is not None else None, parts


def truth(cond, x, val):
    """a condition on x where x is val; None when it cannot be told"""
    k = T.key_of(cond)
    if not k:
        return None
    nan = val != val

    def num(t):
        if T.is_num(t):
            return float(T.num(t))
        b = bare(t)[0]
        if T.same(b, x):
            return val
        j = T.key_of(b)
        if j and j[0] == "abs":
            y = num(j[1])
            return None if y is None else abs(y)
        return None
    if k[0] == "isnan":
        return nan if num(k[1]) is not None else None
    if k[0] == "not":
        r = truth(k[1], x, val)
        return None if r is None else not r
    if k[0] in ("and", "or"):
        rs = [truth(y, x, val) for y in k[1:]]
        if None in rs:
            return None
        return all(rs) if k[0] == "and" else any(rs)
    if k[0] == "cmp":
        a, b = num(k[2]), num(k[3])
        if a is None or b is None:
            return None
        return {"Eq": a == b, "NotEq": a != b, "Gt": a > b, "GtE": a >= b, "Lt": a < b, "LtE": a <= b}.get(k[1])
    return None


def uncentred(t):
    """a value apart from a mean subtracted from it"""
    out = ()
    for m, c in t:
        one = ((m, c),)
        k = T.key_of(one) or T.key_of(T.sub((), one))
        if not (k and k[0] == "MEAN"):
            out = T.add(out, one)
    return out


def sampled(rep, rule, lab, s, f, us, adj, sg, I, G, nb, dof):
    """the residuals that are resampled"""
    if adj is None or us is None:
        rep.unk(rule, lab + " sampled residuals", "residuals not tracked")
        return
    draws = [e for e in s.events() if e.kind == "draw" and e.data["dist"] in ("choice", "normal") and "terms" in e.data]
    if not draws:
        rep.unk(rule, lab + " sampled residuals", "draws not found")
    for (fn, line), es in sites(draws):
        inst = "%s draws %s:%s" % (lab, fn, line)
        for e in es[:1]:
            ts, nm = e.data["terms"], e.data["named"]
            if e.data["dist"] == "choice":
                x = ts[0] if ts else nm.get("a")
            else:
                loc, sd = ts[0] if ts else nm.get("loc", ()), ts[1] if len(ts) > 1 else nm.get("scale", T.ONE)
                if loc is not None and loc != () and (T.is_num(loc) or (T.key_of(loc) or ("",))[0] == "MEAN" and T.same(bare(T.key_of(loc)[1])[0], adj)):
                    rep.event(rule, e, "%s: residuals are drawn around %s instead of 0" % (lab, "their mean" if not T.is_num(loc) else T.show(loc)), fn)
                k = T.key_of(sd)
                if k and k[0] in ("VAR", "MEAN", "MEDIAN") and T.same(bare(k[1])[0], adj):
                    rep.event(rule, e, "%s: the spread of drawn residuals is the %s of the adjusted ones instead of their standard deviation" % (lab, k[0].lower()), fn)
                ks = [T.name_of(i) for i in T.atoms_in(sd)] if sd is not None else []
                ks = [j for j in ks if j[0] == "STD" and len(j) > 1]
                x = ks[0][1] if len(ks) == 1 else None
                if x is not None and k is None:
                    if related(sd, (I, G, nb, dof, T.atom(*ks[0]))):
                        rep.event(rule, e, "%s: the spread of drawn residuals is not the standard deviation of the adjusted ones but a multiple or root of it" % lab, fn)
                    x = None
            b, parts = bare(x)
            if b is not None and e.data["dist"] == "normal":
                b = uncentred(b)
            known = [y for y in (I, G, nb, dof, adj, us) if y is not None]
            if b is None:
                rep.unk(rule, inst, "drawn residuals not tracked")
            elif T.same(b, adj, sg) or (e.data["dist"] == "normal" and T.same(b, T.sub((), adj), sg)):
                deep = [p for p in parts if not set(p) <= {"0:", "0:-1"}]
                if deep:
                    rep.event(rule, e, "%s: only part %s of the residuals is resampled" % (lab, deep[0]), fn)
                else:
                    rep.ok(rule, inst)
            elif sg and related(b, known) and T.same(b, us, sg) is False and T.same(b, adj, sg) is False:
                rep.event(rule, e, "%s: %s are resampled instead of the adjusted residuals" % (lab, T.show(b, 5)[:200]), fn)
            elif T.same(b, us):
                rep.event(rule, e, "%s: unscaled instead of adjusted residuals are resampled" % lab, fn)
            else:
                rep.unk(rule, inst, "drawn residuals not related to the adjusted ones")
    conds = []
    for e in s.events():
        if e.kind == "selected" and e.data["cond"] is not None:
            b = bare(e.data["term"])[0]
            if b is not None and (T.same(b, adj) or T.same(b, us)):
                conds.append((e, b))
    inst = lab + " residuals kept"
    if not conds:
        rep.unk(rule, inst, "selection of residuals not found")
        return
    got = []
    for val in (float("nan"), 0.0, 0.5, -0.5, 3.0, -3.0):
        rs = [truth(e.data["cond"], b, val) for e, b in conds]
        got.append(False if False in rs else None if None in rs else True)
    names = ("missing", "zero", "positive", "negative", "positive", "negative")
    e = conds[0][0]
    wrong = [n for n, g, w in zip(names, got, (False, False, True, True, True, True)) if g is (not w)]
    if wrong:
        n = wrong[0]
        rep.event(rule, e, "%s: %s residuals are %s the resampled ones" % (lab, n, "among" if n in ("missing", "zero") else "not (all) among"), e.func)
    elif None in got:
        rep.unk(rule, inst, "selection of residuals not tracked")
    else:
        rep.ok(rule, inst)


def related(t, known):
    """is a value computed from the known ones alone?"""
    if t is None:
        return False
    allowed = set()
    for x in known:
        allowed |= T.atoms_in(x)
    return all(i in allowed or T.name_of(i)[0] in PLAIN for i in T.atoms_in(t))


def alias(x, *ts):
    """a computed value taken as a whole: (its name, the terms with it replaced)"""
    if T.key_of(x) is not None:
        return x, ts
    y = T.atom("whole", x)
    return y, tuple(replaced(t, x, y) for t in ts)


def replaced(t, x, y):
    """t with every occurrence of the polynomial x, alone or times one other factor, replaced by y"""
    if t is None or not x:
        return t
    if len(t) % len(x) == 0 and t:
        q = quotient(t, x)
        if q is not None:
            return T.mul(replaced(q, x, y) if q != T.ONE else q, y)

    def f(a):
        k = T.key_of(a)
        if k[0] in ("abs", "cmp", "ite", "sign"):
            return T.atom(k[0], *[replaced(z, x, y) if T.is_term(z) else z for z in k[1:]])
        return a
    return T.mapatoms(t, f)


def quotient(t, x):
    """q with q * x == t, or None"""
    m0, c0 = x[0]
    for m, c in t:
        d = T.div(((m, c),), ((m0, c0),))
        if T.mul(d, x) == t:
            return d
    if len(t) > len(x):
        q = ()
        r = t
        for _ in range(len(t) // len(x)):
            for m, c in r:
                d = T.div(((m, c),), ((m0, c0),))
                r2 = T.sub(r, T.mul(d, x))
                if r2 is not None and len(r2) == len(r) - len(x):
                    q, r = T.add(q, d), r2
                    break
            else:
                return None
        return q if r == () else None
    return None


def amount(mean, S):
    """the one amount, apart from the scale parameter, that a mean is computed from"""
    if mean is None:
        return None
    own = T.atoms_in(S) if S is not None else set()
    xs = [i for i in T.atoms_in(mean) if i not in own and T.name_of(i)[0] == "val"]
    return T.atom(*T.name_of(xs[0])) if len(xs) == 1 else None
