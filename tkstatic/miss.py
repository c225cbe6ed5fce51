"""Missing amounts: tags of cells that may hold none (miss), that had one invented (zeroed), that lost or doubled one next to a gap
(gaplost), and of booleans telling them apart.  Inert unless a scenario tags its input with "miss".

A boolean made from amounts carries in `rep` what it is for a missing amount: isnan / notnan when it says exactly that, nan1 / nan0 when it is
(say) a comparison that is true / false there."""
import ast
from .dom import *
from . import terms as T


def constof(v):
    return v.cell.const if isinstance(v, Sc) else NOC


ON = [False]         # set by the rule that needs it
AVG = [False]        # also keep which of several values a condition picks, and which values of a vector are selected
TST = [False]        # give every column and number that is not followed a name, and keep the functions that tests are made of
FORM = [False]       # keep for every value of a table which cell it is (formulas); set together with ON
MISS, ZEROED, GAP, SH, CARRY = "miss", "zeroed", "gaplost", "shmiss", "carried"
BAD = frozenset((MISS, ZEROED, GAP, SH))
FLIP = {"isnan": "notnan", "notnan": "isnan", "nan1": "nan0", "nan0": "nan1"}


def has(c):
    return c is not None and MISS in c.tags


def less(c, *tags):
    return c if c is None or not (c.tags & frozenset(tags)) else c.w(tags=c.tags - frozenset(tags))


def leading(c):
    """does the (0/1) value say that no amount so far was missing?"""
    k = T.key_of(c.term) if c.term is not None else None
    k = T.key_of(k[1]) if k and k[0] == "CUMPROD" else None
    k = T.key_of(k[1]) if k and k[0] == "not" else None
    return bool(k) and k[0] == "isnan"


def isnum(c):
    return isinstance(c.const, (int, float)) and not isinstance(c.const, bool) and c.const == c.const


def isnanconst(c):
    return isinstance(c.const, float) and c.const != c.const


def nanterm(c):
    return T.atom("NaN") if isnanconst(c) else None


def nanbranch(b):
    """value of the boolean for a missing amount"""
    return {"isnan": True, "nan1": True, "notnan": False, "nan0": False}.get(b.rep) if isinstance(b.rep, str) else None


def of_test(b, name, c):
    """the cell b of isnan(c) and the like"""
    if not ON[0]:
        return b
    if name in ("isnan", "isnull", "isna"):
        rep = "isnan"
    elif name in ("notnull", "notna", "isfinite"):
        rep = "notnan"
    elif name == "logical_not":
        return b.w(rep=FLIP.get(c.rep))
    else:
        return b
    if c.term is not None:
        b = b.w(term=T.atom("isnan", c.term))
        if rep == "notnan":
            b = b.w(term=T.atom("not", b.term))
    return b.w(tags=b.tags - BAD, rep=rep) if has(c) else b


def of_compare(b, op, x, y):
    if not ON[0] or b.const is not NOC:
        return b
    if FORM[0]:
        x, y = (c.w(term=T.atom("label", c.lab)) if c.lab in ("O", "D") and c.term is None and c.rep is None else c for c in (x, y))
    if x.term is not None and y.term is not None:
        b = b.w(term=T.atom("cmp", op, x.term, y.term))
    if not (has(x) or has(y)):
        return b
    b = b.w(tags=b.tags - BAD)
    return b.w(rep="nan1" if op == "NotEq" else "nan0") if b.rep is None else b


def of_in(b, op, a, o):
    """membership in a list of numbers is a comparison with each"""
    if b.const is not NOC or not (isinstance(a, Sc) and a.cell.term is not None and isinstance(o, Seq) and o.exact()):
        return b
    cs = [x.cell.const if isinstance(x, Sc) and isnum(x.cell) and x.cell.const == int(x.cell.const) else None for x, _ in o.segs]
    if None in cs or not cs:
        return b
    t = None
    for c in cs:
        e = T.atom("cmp", "Eq", a.cell.term, T.const(int(c)))
        t = e if t is None else T.atom("or", t, e)
    return b.w(term=t if op == "In" else T.atom("not", t))


BOOLS = ("isnan", "near", "not", "cmp", "and", "or", "all", "any")


def negate(b, c):
    if not ON[0]:
        return b
    t = truthy(c)
    return b.w(rep=FLIP[c.rep], term=T.atom("not", t) if t is not None else None) if c.rep in FLIP else \
        b.w(term=T.atom("not", t)) if t is not None else b


def combine(b, op, x, y):
    """and/or of two booleans"""
    if not ON[0] or b.const is not NOC:
        return b
    n = (nanbranch(x), nanbranch(y))
    if op == "and" and False in n:
        b = b.w(rep="nan0")
    elif op == "or" and True in n:
        b = b.w(rep="nan1")
    elif x.rep in FLIP or y.rep in FLIP:
        b = b.w(rep=None)
    if None not in (truthy(x), truthy(y)):
        b = b.w(term=T.atom(op, truthy(x), truthy(y)))
    return b


def select(r, c, x, y):
    """tags of `x where c else y`"""
    n = nanbranch(c)
    if n is None:
        return r
    nb, ob = (x, y) if n else (y, x)
    tags = (r.tags - BAD) | (nb.tags & BAD) | ((ob.tags & BAD) - {MISS, SH})
    if isnanconst(nb):
        tags = (tags - {ZEROED}) | {MISS}
    elif isnum(nb):
        tags = tags | {ZEROED} if MISS in ob.tags or ob.dim is not None and ob.dim == D1 else tags
    return r.w(tags=tags)


def filled(r, c, v):
    """tags of c with missing amounts replaced by v"""
    if isnanconst(v):
        return r
    vt = T.atom("num", v.const) if isnum(v) and not isinstance(v.const, int) else v.term if v.term is not None else T.const(v.const) if isnum(v) else None
    if of_cells(c) and vt is not None and r.term is None:
        r = r.w(term=T.atom("ite", T.atom("isnan", c.term), vt, c.term))
    t = r.tags
    if isnum(v):
        if SH in c.tags:
            t = t | {GAP}
        elif MISS in c.tags:
            t = t | {ZEROED}
    if MISS not in v.tags:
        t = t - {MISS, SH}
    return r.w(tags=t)


def filtered(c, b):
    """a cell of rows kept where b holds"""
    return less(c, MISS, SH) if nanbranch(b) is False else c


# ---- which cell of a triangle a value comes from -------------------------
def loopvar(I, v, n, st):
    """loop variables ranging over labels or positions get a name of their own"""
    me = ("it", n.lineno, n.col_offset)

    def name(c):
        t = T.atom("it", c.lab, n.lineno, n.col_offset)
        if FORM[0] and not (c.term is not None and T.fn_of(c.term) == "it"):
            DOM[T.key_of(t)] = span(c)
            q = T.key_of(c.term) if c.term is not None else None
            UP[T.key_of(t)] = bool(q and q[0] == "rng" and q[2] == T.ONE) and c.rep is None
        return t

    for x, y in list(st.env.items()):
        if isinstance(y, Sc) and y.cell.term is not None and any(mine(a, me) for a in T.atoms_in(y.cell.term)):
            st.env[x] = Sc(y.cell.w(term=None))
    if isinstance(v, Sc) and v.cell.lab in ("O", "D", "pos") and v.cell.const is NOC:
        return Sc(v.cell.w(term=name(v.cell)))
    o = st.heap.get(v.oid) if isinstance(v, Ref) else None
    if isinstance(o, Seq) and len(o.segs) == 2 and all(isinstance(x, Sc) and x.cell.const is NOC for x, _ in o.segs):
        a, b = (x.cell for x, _ in o.segs)
        e = T.key_of(a.term)
        if a.lab == "pos" and e and e[0] == "enum":
            lo = low(b)
            if b.lab in ("O", "D"):
                b = b.w(term=name(b))
                a = a.w(term=T.add(T.atom("pos", b.term), T.const(e[1] - lo)) if lo is not None and isinstance(e[1], int) else from0(name(a), e[1]))
            else:
                a = a.w(term=from0(name(a), e[1]))
            return I.seq(st, [Sc(a), Sc(b)], kind=o.kind, node=n)
    if isinstance(o, Seq) and o.exact() and any(isinstance(x, Sc) and x.cell.lab in ("O", "D") and x.cell.const is NOC for x, _ in o.segs):
        out, seen = [], set()
        for x, _ in o.segs:
            if isinstance(x, Sc) and x.cell.lab in ("O", "D") and x.cell.const is NOC:
                z = T.key_of(x.cell.term)
                if z and z[0] == "zip":
                    x = Sc(x.cell.w(term=T.atom("lblat", x.cell.lab, T.add(T.atom("pos", name(x.cell)), T.const(z[1])))))
                else:
                    x = Sc(x.cell.w(term=name(x.cell) if x.cell.lab not in seen else None))
                    seen.add(x.cell.lab)
            out.append(x)
        return I.seq(st, out, kind=o.kind, node=n)
    return v


def from0(t, start):
    """a round's number, rounds being counted from 0"""
    return t if not TST[0] else T.add(t, T.const(start)) if isinstance(start, int) else None


def counters(I, n, st):
    """names a loop counts up or down by hand: {name: (value before the loop, step)}"""
    stored, steps, out = {}, {}, {}
    for b in ast.walk(n):
        if isinstance(b, ast.Continue):
            return {}
        if isinstance(b, (ast.Name,)) and isinstance(b.ctx, ast.Store):
            stored[b.id] = stored.get(b.id, 0) + 1
    for b in n.body:
        x = c = None
        if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.op, (ast.Add, ast.Sub)):
            x, c, neg = b.target.id, b.value, isinstance(b.op, ast.Sub)
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.BinOp) and \
                isinstance(b.value.op, (ast.Add, ast.Sub)):
            x, l, r = b.targets[0].id, b.value.left, b.value.right
            neg = isinstance(b.value.op, ast.Sub)
            if isinstance(l, ast.Name) and l.id == x:
                c = r
            elif isinstance(r, ast.Name) and r.id == x and not neg:
                c = l
        if isinstance(c, ast.Constant) and type(c.value) is int and stored.get(x) == 1:
            steps[x] = -c.value if neg else c.value
    for x, c in steps.items():
        y = st.env.get(x)
        if not isinstance(y, Sc):
            continue
        v = y.cell.const
        if type(v) is int:
            out[x] = (T.const(v), c)
        elif v is NOC and y.cell.term is not None:
            out[x] = (y.cell.term, c)
    return out


def counted(I, v, t0, c, st):
    """a hand-made counter in the round of a loop variable"""
    k = None
    cells = []
    if isinstance(v, Sc):
        cells = [v.cell]
    elif isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Seq) and st.heap[v.oid].exact():
        cells = [x.cell for x, _ in st.heap[v.oid].segs if isinstance(x, Sc)]
    for z in cells:
        if T.fn_of(z.term) == "it":
            if z.lab in ("O", "D"):
                lo = low(z)
                k = T.sub(T.atom("pos", z.term), T.const(lo)) if lo is not None else None
            else:
                d = DOM.get(T.key_of(z.term))
                k = T.sub(z.term, d[0]) if d and UP.get(T.key_of(z.term)) else None
            break
    t = T.add(t0, T.mul(T.const(c), k)) if k is not None and t0 is not None else None
    return Sc(Cell(frozenset(), D0, "pos" if t is not None else None, None, t, NOC, "pyint"))


UP = {}          # loop variables: do they count up by one?
DOM = {}         # loop variables: the (first, last + 1) position or number they take


def bounds(rep):
    """(a, b) of an index slice, None for unknown"""
    if rep is None:
        return (0, None)
    if isinstance(rep, str) and rep.startswith("[") and rep.endswith("]") and rep.count(":") == 1:
        try:
            a, b = [None if x == "None" else int(x) for x in rep[1:-1].split(":")]
        except ValueError:
            return None
        return (a or 0, b)
    return None


def span(c):
    k = T.key_of(c.term) if c.term is not None else None
    n = T.atom("n")
    if c.lab in ("O", "D"):
        lo, hi = T.const(0), n
    elif k and k[0] == "rng" and k[2] == T.ONE and T.fn_of(k[3]) != "?":
        lo, hi = k[1], k[3]
    elif k and k[0] == "rng" and k[2] == T.const(-1) and T.fn_of(k[3]) != "?":
        lo, hi = T.add(k[3], T.ONE), T.add(k[1], T.ONE)
        if c.rep not in (None, "ge1"):
            return None
    else:
        return None
    b = (0, None) if c.rep == "ge1" else bounds(c.rep)
    if b is None:
        return None
    a = b[0]
    if a < 0:
        lo = T.add(hi, T.const(a))
    else:
        lo = T.add(lo, T.const(a))
    if b[1] is not None:
        if b[1] >= 0:
            return None
        hi = T.add(hi, T.const(b[1]))
    return (lo, hi)


def mine(i, me):
    key = T.name_of(i)
    return key[0] == "it" and key[-2:] == me[1:]


def low(c):
    """position of the first label an index slice keeps"""
    if c.rep is None:
        return 0
    if isinstance(c.rep, str) and c.rep.startswith("[") and c.rep.endswith("]") and ":" in c.rep:
        lo = c.rep[1:-1].split(":")[0]
        if lo == "None":
            return 0
        try:
            return int(lo) if int(lo) >= 0 else None
        except ValueError:
            return None
    return None


def is_tri(o):
    return isinstance(o, Frame) and isinstance(o.cls, str) and o.cls.endswith("Triangle")


def built(I, ref, st):
    """a finished triangle: its cells are what positions refer to from now on"""
    if is_tri(st.heap.get(ref.oid)):
        m = st.mut(ref.oid)
        if m.rest is not None and m.rest.cell is not None:
            m.rest = Col(m.rest.cell.w(term=T.atom("cells")), m.rest.special)


def attribute(I, o, name, v, st):
    if name == "triind" and isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Frame):
        m = st.mut(v.oid)
        if m.rest is not None and m.rest.cell is not None:
            m.rest = Col(m.rest.cell.w(term=T.atom("triind")), m.rest.special)
    if FORM[0] and name in ("a2a", "a2aind") and isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Frame):
        m = st.mut(v.oid)
        if m.rest is not None and m.rest.cell is not None:
            m.rest = Col(m.rest.cell.w(term=T.atom(name)), m.rest.special)
            m.ix = m.ix.w(cells=tuple(c.w(rep=None) if c is not None and c.rep == "nnall" else c for c in m.ix.cells))
            m.cut = False
    if FORM[0] and name == "latest" and isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Frame):
        m = st.mut(v.oid)
        m.ix = rows_n(m.ix)
    return v


def rows_n(ix):
    return ix.w(cells=tuple(c.w(tags=c.tags | {"rows:n"}) if c is not None and c.lab in (None, "pos") and c.rep is None else c for c in ix.cells))


def base_of(x):
    """first label of an axis that was numbered anew (1, 2, ...)"""
    c = x.ix.cells[0] if isinstance(x, (Ser, Idx)) and len(x.ix.cells) == 1 else x
    return 1 if isinstance(c, Cell) and c.lab == "pos" and c.rep == "ge1" else 0


def keyterm(key, pos, base=0):
    """position a row/column key stands for: term, "*" for all of them, None when unknown"""
    if key is None:
        return "*"
    if isinstance(key, Sc):
        c = key.cell
        if pos:
            return T.const(c.const) if isinstance(c.const, int) and not isinstance(c.const, bool) else c.term
        if c.term is None:
            return None
        t = T.key_of(c.term)
        if t and t[0] == "lblat":
            return t[2]
        if t and t[0] == "lbl" and isinstance(t[2], int) and t[2] >= 0:
            return T.const(t[2])
        if FORM[0] and (base or c.lab == "pos"):
            return T.sub(c.term, T.const(base))
        if FORM[0] and t and t[0] == "lbl":
            return T.const(t[2])
        return T.atom("pos", c.term)
    if isinstance(key, SliceV):
        if FORM[0]:
            if key.step is not None and constof(key.step) not in (None, 1):
                return None
            none = lambda b: b is None or isinstance(b, Sc) and b.cell.const is None
            lo = T.const(0) if none(key.lo) else keyterm(key.lo, pos, base)
            hi = T.atom("end") if none(key.hi) else keyterm(key.hi, pos, base)
            return "*" if lo == T.const(0) and hi == T.atom("end") else T.atom("sl", lo, hi)
        return "*"
    return None


def at(cell, rk, ck, pos, rb=0, cb=0):
    if FORM[0]:
        if cell is None or cell.term is None or T.is_num(cell.term):
            return cell
        return cell.w(term=compose(cell.term, keyterm(rk, pos, rb), keyterm(ck, pos, cb)))
    if cell is None or cell.term is None or T.is_num(cell.term) or not any(T.name_of(i)[0] in ("cells", "triind") for i in T.atoms_in(cell.term)):
        return cell
    return cell.w(term=compose(cell.term, keyterm(rk, pos), keyterm(ck, pos)))


def compose(t, r, c):
    if FORM[0]:
        return T.mapatoms(t, lambda a: pick(a, r, c))

    def f(a):
        key = T.key_of(a)
        if key[0] == "at":
            r1, c1 = (r, c) if key[2] == key[3] == "*" else (r, key[3]) if key[2] == "*" and c == "*" else (key[2], c) if key[3] == "*" and r == "*" else \
                (r, key[3]) if key[2] == "*" and c == key[3] else (key[2], c) if key[3] == "*" and r == key[2] else \
                (key[2], key[3]) if "*" not in key[2:4] or r == c == "*" else (None, None)
            return T.atom("at", key[1], r1, c1)
        return a if r == c == "*" else T.atom("at", a, r, c)
    return T.mapatoms(t, f)


FIXED = ("it", "n", "rn", "rng", "given", "end", "alpha")      # the same for every cell


def pick(a, r, c):
    """the atom a of a table at row r, column c (positions; "*": all of them)"""
    key = T.key_of(a)
    if r == c == "*" or key[0] in FIXED:
        return a
    if key[0] == "at" and len(key) == 4:
        q = []
        for old, new in ((key[2], r), (key[3], c)):
            o = T.fn_of(old) if old != "*" else None
            if new == "*" or old == "*":
                q.append(old if new == "*" else new)
            elif o == "sl":
                lo = T.key_of(old)[1]
                if T.fn_of(new) == "sl" or T.fn_of(lo) == "end" or T.is_num(new) and T.num(new) < 0:
                    return None
                q.append(T.add(lo, new))
            else:
                q.append(old)
        return T.atom("at", key[1], *q)
    if key[0] == "SUM" and len(key) == 3 and isinstance(key[2], str):
        # sums over the rows, one per column
        return T.linear("SUM", compose(key[1], "*", c), key[2])
    if key[0] == "GSUM":
        return a
    v = VEC.get(key)
    if v == "1":
        return a
    if v == "D":
        return T.atom("at", a, "*", c) if c != "*" else a
    if v == "O":
        return T.atom("at", a, r, "*") if r != "*" else a
    return T.atom("at", a, r, c)


VEC = {}         # names of vectors: the axis they run along ("1": single values)


def ranged(c, args):
    """the numbers of a range"""
    t = [T.const(a.const) if isinstance(a.const, int) and not isinstance(a.const, bool) else a.term for a in args]
    if len(t) == 1:
        t = [T.const(0)] + t
    if len(t) == 2:
        t = t + [T.ONE]
    if len(t) != 3 or t[0] is None or not T.is_num(t[2]):
        return c.w(term=None)
    if t[2] == T.ONE and t[1] is not None and T.sub(t[1], t[0]) == T.atom("n") and t[0] in (T.const(0), T.ONE):
        c = c.w(tags=c.tags | {"rows:n"})
    return c.w(term=T.atom("rng", t[0], t[2], t[1] if t[1] is not None else T.atom("?")))


def as_column(c):
    """the numbers of a range as a column: a function of the row number"""
    k = T.key_of(c.term) if c.term is not None else None
    if k and k[0] == "rng":
        return c.w(term=T.add(k[1], T.mul(k[2], T.atom("rn"))))
    return c


def kept_rows(g, mask):
    """which rows a comparison of their labels keeps"""
    k = T.key_of(mask.term) if mask.term is not None else None
    if k and k[0] == "cmp" and len(g.ix.cells) == 1 and T.fn_of(k[2]) == "label" and T.fn_of(k[3]) == "it":
        g.ix = g.ix.w(cells=(g.ix.cells[0].w(rep="m:%s:%s" % (k[1], T.show(k[3], 3))),))


def bound_sum(c):
    """sum over the numbers of a range"""
    if c.term is None or not any(T.name_of(i)[0] == "rng" for i in T.atoms_in(c.term)):
        return c.w(term=None)
    return c.w(term=T.linear("GSUM", c.term, "range"))


def solve(mask, c):
    """c in the row whose number the mask determines"""
    k = T.key_of(mask.term) if mask.term is not None else None
    if not k or k[0] != "cmp" or k[1] != "Eq" or c is None or c.term is None:
        return c
    d = T.sub(k[2], k[3])
    rn = T.atom("rn")
    co = [co for m, co in d or () if ((m, T.F(1)),) == rn]
    if len(co) != 1 or abs(co[0]) != 1 or sum(1 for i in T.atoms_in(d) if T.name_of(i) == ("rn",)) != 1:
        return c
    sol = T.mul(T.const(-co[0]), T.sub(d, T.mul(T.const(co[0]), rn)))
    if any(T.name_of(i) == ("rn",) for i in T.atoms_in(sol)):
        return c
    return c.w(term=T.mapatoms(c.term, lambda a: sol if T.key_of(a) == ("rn",) else a))


KEEP = {Ser: set("copy astype sum mean max min std var prod median get item map to_frame mul div truediv divide multiply add sub subtract pow rmul radd rdiv "
                 "rtruediv rsub rpow sort_index fillna replace abs round isnull isna notnull notna cumprod to_numpy rename dropna reset_index".split()),
        Frame: set("copy astype sum mean max min std var prod median get mul div truediv divide multiply add sub subtract pow rmul radd rdiv rtruediv rsub rpow "
                   "sort_index fillna replace abs round isnull isna notnull notna to_numpy drop dropna assign applymap".split()),
        Arr: set("copy astype sum mean max min std var prod item cumprod round".split()),
        Idx: set("astype copy to_numpy".split())}
NPKEEP = set("asarray array asanyarray ascontiguousarray copy sum mean max min amax amin nansum nanmean nanmin nanmax minimum maximum fmin fmax cumprod where dot full_like "
             "zeros_like ones_like empty_like isclose allclose clip".split())


def named_rank(I, o, vs, n, st):
    """ranks are given a name"""
    tags = [t for t in (o.tagset() if hasattr(o, "tagset") else (o.rest.cell.tags if isinstance(o, Frame) and o.rest is not None and o.rest.cell is not None else ())) if str(t).startswith("rk:")]
    vs = [x for v in vs for x in ([v] if isinstance(v, Sc) else [*(st.heap[v.oid].items.values()), st.heap[v.oid].rest] if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Dct)
                                  else [y for y, m in st.heap[v.oid].segs] if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), Seq) else [])]
    for v in vs:
        c = v.cell.const if isinstance(v, Sc) else None
        if tags and isinstance(c, AbsStr):
            I.event("relabel", n, "%s %s" % (c, sorted(tags)), tags=tuple(sorted(tags)), prefix=c.prefix, term=c.src if c.kind == "num" and not c.suffix else None)


def kept(I, o, name, r, ref, st, args, kw):
    """result of a library method: positions in it are only trusted for methods known to keep the order"""
    if AVG[0] and name in ("reindex", "count") and isinstance(o, Ser):
        return r
    if TST[0] and name in ("value_counts", "get", "apply", "sum", "from_dict", "from_records", "sort_values", "sort_index", "reset_index", "set_index", "astype", "copy", "assign") \
            or TST[0] and name in ("rank", "to_frame", "rename", "dropna", "clip"):
        return r
    if name in KEEP.get(type(o), ()) and not (name == "sort_index" and set(kw) - {"axis", "inplace"}):
        if name == "dropna" and isinstance(o, Frame) and constof(kw.get("how", Sc(Cell()))) != "all" or name == "drop" and not all(isinstance(constof(x), (str, AbsStr, int)) for x in list(args) + list(kw.values())):
            pass
        elif name == "reset_index" and (constof(kw.get("drop", Sc(Cell()))) is not True or offset(o.ix) != 0):
            pass
        elif name in ("to_numpy",):
            return positional(I, o, r, st)
        else:
            return r
    if isinstance(r, Ref) and isinstance(ref, Ref) and r.oid == ref.oid:
        return r
    if isinstance(o, Arr) and name in ("ravel", "flatten"):
        return flattened(o, r, st)
    return unplaced(r, st, isinstance(o, Frame) and name in LABELLED)


def flattened(o, r, st):
    """the cells of a table one after the other"""
    if isinstance(r, Ref) and isinstance(st.heap.get(r.oid), Arr) and isinstance(o, Arr) and o.nd == 2:
        m = st.mut(r.oid)
        m.cell = m.cell.w(term=T.mapatoms(m.cell.term, lambda a: T.atom("flat", a)) if m.cell.term is not None else None)
        return r
    return r if isinstance(o, Arr) and o.nd == 1 else unplaced(r, st)


def unsliced(c):
    return c.rep is None or c.rep == "ge1" and c.term is not None and T.fn_of(c.term) == "rng"


def sliced(c, key):
    """labels or numbers of a sequence of which a slice is taken"""
    if c is None or c.lab not in ("O", "D", "pos") or c.const is not NOC:
        return c
    lo, hi, step = (constof(x) if x is not None else None for x in (key.lo, key.hi, key.step))
    if lo in (None, 0) and hi is None and step in (None, 1):
        return c
    if step in (None, 1) and unsliced(c) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return c.w(rep="[%s:%s]" % (lo, hi))
    return c.w(rep="?")


def loose(v):
    """a label or number of a sequence of which some may be left out or that may be in another order"""
    if isinstance(v, Sc) and v.cell.lab in ("O", "D", "pos") and v.cell.const is NOC:
        return Sc(v.cell.w(rep="?"))
    return v


def placeless(c):
    return c.w(term=None) if c is not None and c.term is not None and not T.is_num(c.term) and c.lab is None and c.dt != "bool" else c


LABELLED = ("merge", "join", "set_index", "rename", "reset_index", "to_frame", "insert", "rename_axis", "set_axis")       # labels stay where they were


def unplaced(r, st, labels=False):
    """the same value with nothing known about which cells it consists of"""
    if isinstance(r, Sc):
        return Sc(placeless(r.cell))
    o = st.heap.get(r.oid) if isinstance(r, Ref) else None
    if isinstance(o, (Ser, Arr, Frame)):
        rewrite(st.mut(r.oid), placeless if labels else lambda c: placeless(c) if c is None or c.lab not in ("O", "D", "pos") or c.const is not NOC else c.w(rep="?"))
    elif isinstance(o, Idx):
        m = st.mut(r.oid)
        m.ix = m.ix.w(cells=tuple(c.w(rep="?") if c is not None and c.lab in ("O", "D", "pos") else c for c in m.ix.cells))
    elif isinstance(o, Seq):
        m = st.mut(r.oid)
        m.segs = [(loose(v), x) for v, x in m.segs]
    return r


def rewrite(m, f):
    if isinstance(m, Frame):
        m.cols = {a: c.map(f) for a, c in m.cols.items()}
        m.rest = m.rest.map(f) if m.rest is not None else None
        return
    m.cell = f(m.cell) if m.cell is not None else None
    m.special = {a: f(c) if c is not None else None for a, c in m.special.items()}
    if isinstance(m, Arr) and m.exact:
        m.exact = tuple(f(c) for c in m.exact)


# ---- selected values of a vector (AVG) -------------------------------------
ROWS = {}        # name of a selection: the steps it was made in, each ("win", first, end) or ("mask", condition)


def narrow(rep, *step):
    """name of the selection that takes one more step"""
    if any(x is None for x in step):
        return None
    key = (ROWS.get(rep, ()) if rep not in (None, "nnall") else ()) + (step,)
    for k, v in ROWS.items():
        if v == key:
            return k
    ROWS["sel#%d" % len(ROWS)] = key
    return "sel#%d" % (len(ROWS) - 1)


def known_rows(ix):
    """name of the selection an axis is: None for everything, "?" when not known"""
    c = ix.cells[0] if ix is not None and len(ix.cells) == 1 and not ix.special else None
    if c is None or c.lab not in ("O", "D", "pos"):
        return "?"
    return c.rep if c.rep is None or c.rep in ROWS else "?"


def narrowed(o, g, *step):
    """g: o with one more selection step"""
    if not AVG[0] or len(g.ix.cells) != 1 or g.ix.cells[0] is None:
        return
    was = known_rows(o.ix)
    rep = narrow(was, *step) if was != "?" else None
    if rep is not None:
        g.ix = g.ix.w(cells=(g.ix.cells[0].w(rep=rep),))


def narrow_arr(t, *step):
    """the selected values of an array"""
    if not AVG[0] or t is None:
        return t
    if T.is_num(t):
        return t
    k = T.key_of(t)
    if k and k[0] == "sorted" and step[0] == "mask":
        return T.atom("sorted", narrow_arr(k[1], *step)) if narrow_arr(k[1], *step) is not None else None
    if k and k[0] == "sel":
        rep = narrow(k[2], *step)
        return T.atom("sel", k[1], rep) if rep else None
    rep = narrow(None, *step)
    return T.atom("sel", t, rep) if rep else None


def arr_slice(t, lo, hi):
    """the values of an array between two positions; in an array in ascending order that is by rank"""
    ks = [T.name_of(x)[0] for m, c in t or () for x, e in m]
    return narrow_arr(t, "rank" if ks and all(k in ("sorted", "ones") for k in ks) else "win", lo, hi)


def position(v):
    """term of a bound of a slice; None when not known"""
    if v is None or isinstance(v, Sc) and v.cell.const is None:
        return T.atom("end")
    if isinstance(v, Sc):
        if isinstance(v.cell.const, int) and not isinstance(v.cell.const, bool):
            return T.const(v.cell.const)
        return v.cell.term
    return None


def func(name, cs):
    """a known function of values"""
    ts = [term_of(c) for c in cs]
    return T.atom(name, *ts) if TST[0] and None not in ts else None


def number_range(args):
    """numbers one after the other"""
    lo, hi = ([None] + list(args))[-2:] if len(args) < 3 else (None, None)
    lo, hi = first_position(lo), position(hi) if len(args) < 3 else None
    return T.atom("range", lo, hi) if lo is not None and hi is not None and T.fn_of(hi) != "end" and not (T.is_num(hi) and T.num(hi) < 0) else None


def first_position(v):
    return T.const(0) if v is None or isinstance(v, Sc) and v.cell.const is None else position(v)


def term_of(c):
    """a value as a term, numbers and NaN included"""
    return T.const(c.const) if isinstance(c.const, int) and not isinstance(c.const, bool) else T.atom("NaN") if isnanconst(c) else c.term


def either(cond, r, x, y):
    """r: x where cond holds, else y"""
    if not (AVG[0] and isinstance(r, Sc) and isinstance(x, Sc) and isinstance(y, Sc)) or x.cell.dt in ("bool", "str") or y.cell.dt in ("bool", "str"):
        return r
    a, b = term_of(x.cell), term_of(y.cell)
    if a is None or b is None or r.cell.const is not NOC:
        return r
    t = a if a == b else T.atom("ite", cond if cond is not None else T.atom("?"), a, b)
    return Sc(r.cell.w(term=t))


def both(facts):
    """one condition from several"""
    r = None
    for t, p in sorted(facts, key=lambda f: (T.show(f[0], 9) if f[0] is not None else "", f[1])):
        t = t if t is not None else T.atom("?")
        t = t if p else T.atom("not", t)
        r = t if r is None else T.atom("and", r, t)
    return r


def count(t):
    """how many values a vector has"""
    return T.atom("count", t) if AVG[0] and t is not None and not T.is_num(t) else None


def offset(ix):
    """position of the first row among all of them; None when that cannot be told"""
    if ix is None or len(ix.cells) != 1 or ix.cells[0] is None:
        return None
    c = ix.cells[0]
    if c.lab not in ("O", "D", "pos"):
        return None
    if c.rep in (None, "ge1"):
        return 0
    return low(c)


def cut_out(o, m, rk, ck):
    """which part of the table o a positional slice m is"""
    if o.cols or o.rest is None or o.cut or o.ro & {"ord", "rev"} or offset(o.ix) != 0 or len(m.ix.cells) != 1 or m.ix.cells[0] is None:
        return
    spec = []
    for x in (rk, ck):
        lo, hi, step = (constof(y) for y in (x.lo, x.hi, x.step)) if isinstance(x, SliceV) else (None, None, None) if x is None else (NOC,) * 3
        if step not in (None, 1) or not all(y is None or isinstance(y, int) for y in (lo, hi)):
            return
        spec.append("%s:%s" % (lo or 0, "" if hi is None else hi))
    if spec != ["0:", "0:"]:
        m.cut = (*spec, m.ix.cells[0].rep)


def placed(o, c):
    """a value of a labelled object, to be read by its position"""
    if c is None or c.term is None or T.is_num(c.term) or c.lab is not None:
        return c
    if isinstance(o, Frame) and isinstance(o.cut, tuple) and len(o.ix.cells) == 1 and o.ix.cells[0] is not None and o.cut[2] == o.ix.cells[0].rep and not o.cols:
        return c.w(term=T.mapatoms(c.term, lambda a: T.atom("sub", a, *o.cut[:2])))
    if AVG[0] and isinstance(o, Ser) and not (o.ro & {"ord", "rev"}) and known_rows(o.ix) not in (None, "?"):
        return c.w(term=T.atom("sel", c.term, known_rows(o.ix)))
    lo = offset(o.ix) if not (o.ro & {"ord", "rev"}) else None
    if lo is None or isinstance(o, Frame) and o.cut:
        return placeless(c)
    if lo == 0:
        return c
    s = T.atom("sl", T.const(lo), T.atom("end"))
    return c.w(term=compose(c.term, s, "*") if isinstance(o, Frame) else at1(c.term, s))


def positional(I, o, r, st):
    """the values of a labelled object in their order"""
    if isinstance(r, Ref) and isinstance(st.heap.get(r.oid), Arr) and not (isinstance(o, Ser) and "rev" in o.ro and offset(o.ix) == 0):
        rewrite(st.mut(r.oid), lambda c: placed(o, c))
    return r


def relabelled(I, m, *axes):
    """an object was given labels: its values keep their positions when these are all labels in order"""
    for ix in axes:
        if ix is not None and offset(ix) != 0:
            rewrite(m, placeless)
            return


def assembled(I, g, d, index, columns):
    """a table or series made of values in their order"""
    if isinstance(d, (Arr, Seq)):
        rewrite(g, lambda c: placeless(c) if c.term is not None and any(T.name_of(i)[0] in ("sl", "it") for i in T.atoms_in(c.term)) else c)
        relabelled(I, g, *[x for x in (index, columns) if x is not None])
    return g


def named(o):
    """the axis a named vector runs along"""
    k = T.key_of(o.cell.term) if o.cell is not None and o.cell.term is not None else None
    if k and len(o.ix.cells) == 1 and o.ix.cells[0] is not None and o.ix.cells[0].lab in ("O", "D"):
        VEC[k] = o.ix.cells[0].lab


def ser_at(cell, key, pos, o=None):
    """one value of a row or column of cells"""
    p = keyterm(key, pos, base_of(o) if o is not None else 0)
    if FORM[0]:
        return cell.w(term=at1(cell.term, p))

    def f(a):
        k = T.key_of(a)
        if k[0] != "at" or p is None or p == "*":
            return None
        return T.atom("at", k[1], p if k[2] == "*" else k[2], p if k[2] != "*" and k[3] == "*" else k[3])
    return cell.w(term=T.mapatoms(cell.term, f))


def at1(t, p):
    """value number p of a vector"""
    if t is None or T.is_num(t) or p == "*":
        return t
    if p is None:
        return None

    def f(a):
        key = T.key_of(a)
        if key[0] in FIXED:
            return a
        if key[0] == "at" and len(key) == 4:
            free = [i for i in (2, 3) if key[i] == "*" or T.fn_of(key[i]) == "sl"]
            if len(free) != 1:
                return a if not free else None
            return pick(a, p, "*") if free == [2] else pick(a, "*", p)
        if VEC.get(key) == "O":
            return T.atom("at", a, p, "*")
        return pick(a, "*", p)
    return T.mapatoms(t, f)


def of_cells(cell):
    if FORM[0]:
        return cell is not None and cell.term is not None and not T.is_num(cell.term)
    return ON[0] and cell is not None and cell.term is not None and not T.is_num(cell.term) and \
        any(T.name_of(i)[0] in ("cells", "triind", "at") for i in T.atoms_in(cell.term))


def zipped(v):
    """labels that are walked side by side: their position relative to the first of each walked slice"""
    if isinstance(v, Sc) and v.cell.lab in ("O", "D") and v.cell.const is NOC:
        lo = low(v.cell)
        return Sc(v.cell.w(term=T.atom("zip", lo) if lo is not None else None, rep=None))
    return v


def truthy(c):
    """the term of a condition"""
    if c.term is None or T.fn_of(c.term) in BOOLS:
        return c.term
    return T.atom("not", T.atom("cmp", "Eq", c.term, T.const(0))) if c.dt != "bool" else None


def stored(I, o, rk, ck, pos, cell, n, st):
    """a cell of a triangle is assigned"""
    if not is_tri(o) and not FORM[0]:
        return
    r, c = keyterm(rk, pos, base_of(o.ix.cells[0]) if FORM[0] and len(o.ix.cells) == 1 else 0), keyterm(ck, pos, getattr(o, "cbase", 0))
    t = T.const(cell.const) if isnum(cell) and isinstance(cell.const, int) else T.atom("NaN") if isnanconst(cell) else \
        T.atom("num", cell.const) if isnum(cell) else cell.term
    show = lambda x: x if isinstance(x, str) else "?" if x is None else T.show(x, 6)
    memos = tuple(sorted((k, v.oid) for k, v in o.attrs.items() if k.startswith("_") and isinstance(v, Ref)))
    I.event("cellstore", n, "cell (%s, %s) := %s when %s%s" % (show(r), show(c), show(t), "; ".join(sorted("%s%s" % ("" if p else "not ", show(f)) for f, p in st.facts)),
            "".join("; %s known" % k for k, _ in memos)), key=(r, c), term=t, facts=st.facts, memos=memos, table=table_name(I, n), old=o.rest.cell.term if o.rest is not None and o.rest.cell is not None else None)


def table_name(I, n):
    import ast
    x = n
    while isinstance(x, (ast.Subscript, ast.Attribute)):
        x = x.value
    return T.atom("tbl", I.stack[-1][0].qual if I.stack else "", x.id if isinstance(x, ast.Name) else ast.unparse(x) if isinstance(x, ast.AST) else "?")


def vec_stored(I, o, key, cell, pos, n, st):
    """a value of a series is assigned"""
    p = keyterm(key, pos, base_of(o))
    show = lambda x: x if isinstance(x, str) else "?" if x is None else T.show(x, 9)
    t = T.const(cell.const) if isnum(cell) and isinstance(cell.const, int) else cell.term
    axis = o.ix.cells[0].lab if len(o.ix.cells) == 1 and o.ix.cells[0] is not None else None
    name = table_name(I, n)
    I.event("vecstore", n, "%s[%s] := %s" % (show(name), show(p), show(t)), key=p, term=t, facts=st.facts, table=name, old=o.cell.term if o.cell is not None else None, axis=axis)
    VEC[T.key_of(name)] = axis if axis in ("O", "D") else None
    return name


def assigned(old, new):
    """cells of a triangle after some of them were assigned; whether those could be is judged at the assignment"""
    return old.w(tags=old.tags | (new.tags - ({MISS} if new.term is None and not isnum(new) else BAD | {MISS})), rep=old.rep if new.rep in (old.rep, "any", None) else cell_join(old, new).rep)
