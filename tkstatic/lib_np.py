"""Model of operators, numpy, scipy, functools/itertools, plotting libraries."""
import math
import os
from fractions import Fraction as F
from .dom import *
from . import dom
from . import terms as T
from . import lib_py as py
from . import miss
from .lib_py import constof, sc, alltags, iterate, lab_name, Dead_

NAN = float("nan")


# ======================================================================
# cell algebra
# ======================================================================
def lin_of(c):
    """exponent as (p, q) of p + q*alpha, or None"""
    if c.const is not NOC and isinstance(c.const, (int, float)) and not isinstance(c.const, bool) and c.const == c.const and abs(c.const) < 1e6:
        return (F(c.const).limit_denominator(1000), F(0))
    if c.term is None:
        return None
    p = q = F(0)
    for m, co in c.term:
        if m == ():
            p = co
        elif T.single(((m, F(1)),)) == ("alpha",):
            q = co
        else:
            return None
    return (p, q)


PYOPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
         "Div": lambda a, b: a / b, "Pow": lambda a, b: a ** b, "Mod": lambda a, b: a % b,
         "FloorDiv": lambda a, b: a // b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b,
         "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}


def is_bool(c):
    return c.dt == "bool" or isinstance(c.const, bool)


def eff_dim(c):
    if is_bool(c):
        return D0
    return c.dim


def isP(d):
    return d is not None and d[0] == "P"


def cell_binop(I, op, a, b, n):
    tags = a.tags | b.tags
    if "sel" in tags and op in ("Add", "Sub") and any("amt" in x.tags and "sel" not in x.tags for x in (a, b)):
        # a sum is weighted by the link-ratio selection only if every amount in it is
        tags -= {"sel"}
    if isinstance(a.rep, str) and a.rep.startswith("cmp:"):
        a = a.w(rep=None)
    if isinstance(b.rep, str) and b.rep.startswith("cmp:"):
        b = b.w(rep=None)
    if "firstD" in (a.rep, b.rep) and op != "Mult":
        a, b = (x.w(rep=None) if x.rep == "firstD" else x for x in (a, b))
    ca, cb = a.const, b.const
    if isinstance(ca, (int, float)) and isinstance(cb, (int, float)) and op in PYOPS:
        try:
            return const_cell(PYOPS[op](ca, cb), tags)
        except ZeroDivisionError:
            return Cell(tags, dim=Z, dt="num")
        except Exception:
            return Cell(tags)
    if op == "Add" and (a.dt == "str" or b.dt == "str"):
        if ca is not NOC and cb is not NOC:
            c = py.str_concat(ca, cb)
            if c is not NOC:
                return Cell(tags, const=c, dt="str")
        return py.str_add(Sc(a), Sc(b)).cell if a.dt == b.dt == "str" else Cell(tags, dt="str")
    if op in ("BitAnd", "BitOr", "BitXor"):
        r = NOC
        if is_bool(a) and is_bool(b):
            if op == "BitAnd" and (ca is False or cb is False):
                r = False
            if op == "BitOr" and (ca is True or cb is True):
                r = True
        r = Cell(tags, dt="bool" if is_bool(a) or is_bool(b) else None, const=r)
        return miss.combine(r, "and" if op == "BitAnd" else "or", a, b) if r.dt == "bool" and op != "BitXor" else r
    if op == "Mod" and isinstance(ca, str):
        return Cell(tags, dt="str")
    lab = lab_binop(I, op, a, b, n)
    da, db = eff_dim(a), eff_dim(b)
    d = dim_binop(I, op, da, db, a, b, n)
    t = None
    if op == "Add":
        t = T.add(a.term, b.term)
    elif op == "Sub":
        t = T.sub(a.term, b.term)
    elif op == "Mult":
        t = T.mul(a.term, b.term)
    elif op == "Div":
        t = T.div(a.term, b.term)
    elif op == "Pow":
        e = lin_of(b)
        t = T.power(a.term, e) if e is not None else T.atom("pow", a.term, b.term) if miss.AVG[0] and a.term is not None and b.term is not None else None
    elif op in ("FloorDiv", "Mod") and (a.lab == "pos" or T.fn_of(a.term) == "rowpos"):
        # row positions folded into groups: which rows end up in one group depends on the layout and the divisor
        t = T.atom("posdiv" if op == "FloorDiv" else "posmod", a.term if T.fn_of(a.term) == "rowpos" else T.atom("rowpos", "?"), b.term if b.term is not None else T.atom("anon"))
    if a.lab in ("O", "D") or b.lab in ("O", "D"):
        t = None
    if op == "Sub" and miss.SH in b.tags:
        tags = tags | {miss.GAP}
    r = Cell(tags, d, lab, rep_binop(I, op, a, b, n), t, NOC, "num")
    if miss.FORM[0] and op == "Add" and a.lab == "pos" and a.rep is None and a.term is None and b.const == 1:
        r = r.w(rep="ge1")
    return r


def lab_binop(I, op, a, b, n):
    x, y = a.lab, b.lab
    if x in ("O", "D"):
        if y == x and op == "Sub":
            return x + "step"
        if y == x + "step" and op in ("Add", "Sub"):
            return x
        if op in ("Add", "Sub") and b.dim == Z:
            return x
        if op == "Mult" and (b.dim == Z or is_bool(b)):
            return None
        if isinstance(b.const, (int, float)) and b.const == b.const and not isinstance(b.const, bool) and op in ("Add", "Sub", "Mult", "Div", "Mod", "FloorDiv", "Pow"):
            if not (op in ("Mult", "Div") and b.const == 1):
                I.event("label-arith", n, "an %s label is combined with the number %r" % (lab_name(x), b.const), lab=x)
            return None
        if y == "pos" and op in ("Add", "Sub", "Mult"):
            I.event("label-arith", n, "an %s label is combined with a position" % lab_name(x), lab=x)
            return None
        if op in ("Add", "Sub") and y is None and b.const is NOC and b.term is None and b.dt in ("num", "int", "pyint"):
            return x + "step"           # (a label or a distance, whichever the other one is)
        if op in ("Mult", "Div") and isP(b.dim) and b.dim != D0:
            I.event("label-arith", n, "an %s label enters an amount" % lab_name(x), lab=x)
        return None
    if y in ("O", "D"):
        if x == y + "step" and op == "Add":
            return y
        if isinstance(a.const, (int, float)) and a.const == a.const and not isinstance(a.const, bool) and a.const != 0 \
                and op in ("Add", "Sub", "Mult", "Div", "Mod", "FloorDiv", "Pow") and not (op == "Mult" and a.const == 1):
            I.event("label-arith", n, "the number %r is combined with an %s label" % (a.const, lab_name(y)), lab=y)
            return None
        if x == "pos" and op in ("Add", "Sub", "Mult"):
            I.event("label-arith", n, "a position is combined with an %s label" % lab_name(y), lab=y)
        return None
    if x and x == y and x.endswith("step") and op in ("Add", "Sub"):
        return x
    for u, v, c in ((x, y, b), (y, x, a)):
        if u in ("Ostep", "Dstep") and op in ("Add", "Sub"):
            if isinstance(c.const, (int, float)) and not isinstance(c.const, bool) and c.const == c.const and c.const != 0:
                I.event("label-arith", n, "a difference of %s labels is combined with the number %r" % (lab_name(u[0]), c.const), lab=u[0])
            elif v == "pos":
                I.event("label-arith", n, "a difference of %s labels is combined with a position" % lab_name(u[0]), lab=u[0])
    if x and x.endswith("step") and op == "Mult" and not y:
        return x
    if y and y.endswith("step") and op == "Mult" and not x:
        return y
    if "pos" in (x, y) and op in ("Add", "Sub") and (x in ("pos", None)) and (y in ("pos", None)):
        return "pos"
    return None


def dim_binop(I, op, da, db, a, b, n):
    if op in ("Add", "Sub"):
        if da is None or db is None:
            return None
        if da == Z:
            return dim_norm(db)
        if db == Z:
            return dim_norm(da)
        if da == LIT and db == LIT:
            return D0
        da, db = dim_norm(da), dim_norm(db)
        if isP(da) and isP(db):
            if da == db:
                return da
            I.event("dim", n, "%s combined with %s by %s" % (dim_show(da), dim_show(db), "+" if op == "Add" else "-"))
            return None
        if da[0] == "LOG" and db[0] == "LOG":
            s = 1 if op == "Add" else -1
            r = (da[1] + s * db[1], da[2] + s * db[2])
            return D0 if r == (0, 0) else ("LOG",) + r
        if da[0] == "LOG" and db == D0:
            return da
        if db[0] == "LOG" and da == D0:
            return db if op == "Add" else ("LOG", -db[1], -db[2])
        I.event("dim", n, "%s combined with %s by %s" % (dim_show(da), dim_show(db), "+" if op == "Add" else "-"))
        return None
    if op in ("Mult", "Div"):
        if da is None or db is None:
            return None
        if da == Z:
            return Z
        if db == Z:
            return Z if op == "Mult" else None
        if da == LIT and db == LIT:
            return D0
        na, nb = dim_norm(da), dim_norm(db)
        s = 1 if op == "Mult" else -1
        if isP(na) and isP(nb):
            return ("P", na[1] + s * nb[1], na[2] + s * nb[2])
        c = b.const if na[0] == "LOG" else a.const
        if na[0] == "LOG" and nb == D0 and isinstance(b.const, (int, float)):
            f = F(b.const).limit_denominator(1000)
            f = f if op == "Mult" else 1 / f
            return ("LOG", na[1] * f, na[2] * f)
        if nb[0] == "LOG" and na == D0 and isinstance(a.const, (int, float)) and op == "Mult":
            f = F(a.const).limit_denominator(1000)
            return ("LOG", nb[1] * f, nb[2] * f)
        return None
    if op == "Pow":
        if da is None:
            return None
        if da == Z:
            return Z
        na = dim_norm(da)
        e = lin_of(b)
        if db is not None and isP(db) and db != D0:
            I.event("dim", n, "%s used as an exponent" % dim_show(db))
        if na == D0:
            return D0
        if e is None or na[0] == "LOG":
            return None
        p, q = e
        if na[2] != 0 and q != 0:
            return None
        return ("P", na[1] * p, na[2] * p + na[1] * q)
    if op in ("Mod", "FloorDiv"):
        if da is None or db is None:
            return None
        na, nb = dim_norm(da), dim_norm(db)
        if isP(na) and isP(nb) and na != nb and na != D0:
            I.event("dim", n, "%s divided with rounding by %s" % (dim_show(na), dim_show(nb)))
            return None
        return D0 if op == "FloorDiv" else na
    return None


def rep_binop(I, op, a, b, n):
    x, y = a.rep, b.rep
    if x in ("any", "ge1"):
        x = None
    if y in ("any", "ge1"):
        y = None
    if "firstD" in (x, y):
        # 1 in the first development period, 0 elsewhere
        o, z = (y, b) if x == "firstD" else (x, a)
        return {"C": "FIRSTC", "I": "FIRSTC", None: "firstD" if z.const == 1 or o == "firstD" else None}.get(o) if op == "Mult" else None
    if op == "Add" and {x, y} == {"FIRSTC", "DIFFC"}:
        return "I"
    if op in ("Add", "Sub"):
        if {x, y} == {"I", "C"}:
            I.event("rep", n, "incremental and cumulative amounts are combined by %s" % ("+" if op == "Add" else "-"))
            return None
        if op == "Sub":
            if x == "C" and y == "SHC":
                return "DIFFC"
            if x == "C" and y == "SHC0":
                return "I"
            if x == y == "I":
                return "I"
            if x and y:
                return None
            return x if y is None and x in ("I",) else None
        if x == y:
            return x if x in ("I", "C") else None
        if x is None and y == "I":
            return "I"
        if y is None and x == "I":
            return "I"
        return None
    if op in ("Mult", "Div"):
        if op == "Div" and x and y:
            if {x, y} <= {"C", "SHC", "NXC"}:
                return "ratioC"
            if {x, y} <= {"I", "SHI", "NXI"}:
                return "ratioI"
            if {x, y} & {"I"} and {x, y} & {"C"}:
                return "ratioX"
            if x == "C" and y == "ratioC":
                return "C"
            if x == y == "ratioC":
                return "ratioC"
            return None
        if op == "Mult" and x and y:
            if {x, y} == {"C", "ratioC"}:
                return "C"
            if x == y == "ratioC":
                return "ratioC"
            return None
        if x in ("C", "I") and y is None and (b.dim in (D0, LIT) or is_bool(b)):
            return x
        if op == "Mult" and y in ("C", "I") and x is None and (a.dim in (D0, LIT) or is_bool(a)):
            return y
        if x in ("I", "C") and y is None and isP(b.dim):
            return x            # amounts in another unit
        if op == "Mult" and y in ("I", "C") and x is None and isP(a.dim):
            return y
        if x and x.startswith("ratio") and y is None:
            return x
        if y and y.startswith("ratio") and x is None and op == "Mult":
            return y
    return None


def rounded(I, c, n, st, what="rounded"):
    if isP(c.dim) and c.dim != D0:
        I.event("dim", n, "an amount is %s to an absolute precision" % what)
    return c.w(term=None if c.term is None else T.atom("round", c.term), const=round(c.const) if isinstance(c.const, (int, float)) and c.const == c.const else NOC)


CMP = {"Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b,
       "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}


def cell_compare(I, op, a, b, n):
    return miss.of_compare(cell_compare_(I, op, a, b, n), op, a, b)


def cell_compare_(I, op, a, b, n):
    tags = a.tags | b.tags
    ca, cb = a.const, b.const
    if ca is not NOC and cb is not NOC:
        if isinstance(ca, AbsStr) or isinstance(cb, AbsStr):
            if ca == cb and op in ("Eq", "NotEq") and ca.kind != "some":
                return Cell(tags, const=(op == "Eq"), dt="bool")
            if op in ("Eq", "NotEq"):
                x, y = (ca, cb) if isinstance(ca, AbsStr) else (cb, ca)
                if isinstance(y, str) and ((x.suffix and not y.endswith(x.suffix)) or (x.prefix and not y.startswith(x.prefix))):
                    return Cell(tags, const=(op == "NotEq"), dt="bool")
            return Cell(tags, dt="bool")
        try:
            return Cell(tags, const=bool(CMP[op](ca, cb)), dt="bool")
        except Exception:
            return Cell(tags, dt="bool")
    for x, y in ((a, b), (b, a)):
        if x.rep == "ge1" and isinstance(y.const, (int, float)) and y.const <= 0:
            gt = {"Eq": False, "NotEq": True, "Lt": False, "LtE": False, "Gt": True, "GtE": True}
            o2 = op if x is a else {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            return Cell(tags, const=gt[o2], dt="bool")
        if x.lab in ("O", "D") and isinstance(y.const, (int, float)) and not isinstance(y.const, bool):
            I.event("label-compare", n, "an %s label is compared with the literal %r" % (lab_name(x.lab), y.const), lab=x.lab)
        if x.lab in ("O", "D") and y.lab == "pos":
            I.event("label-compare", n, "an %s label is compared with a position" % lab_name(x.lab), lab=x.lab)
        if {x.lab, y.lab} == {"O", "D"} and op in ("Eq", "NotEq", "Lt", "Gt", "LtE", "GtE") and x is a:
            I.event("label-compare", n, "an origin label is compared with a development label", lab="OD")
        if isP(eff_dim(x)) and eff_dim(x) != D0 and y.dim == LIT:
            I.event("dim", n, "%s compared with the literal %r" % (dim_show(x.dim), y.const))
        if x.dim is not None and x.dim[0] == "LOG" and isinstance(y.const, (int, float)) and abs(y.const) != float("inf") and y.const == y.const:
            I.event("dim", n, "the logarithm of an amount compared with %r" % (y.const,))
        if isinstance(y.const, str) and x.dt == "label" and y.const != "total" and op == "Eq":
            pass
    if isP(eff_dim(a)) and isP(eff_dim(b)) and a.dim != b.dim and not is_bool(a) and not is_bool(b) and a.dim != LIT and b.dim != LIT:
        I.event("dim", n, "%s compared with %s" % (dim_show(a.dim), dim_show(b.dim)))
    # a string never equals a number
    for x, y in ((a, b), (b, a)):
        if op in ("Eq", "NotEq") and x.dt in ("int", "num", "pyint") and x.const is NOC and (isinstance(y.const, (str, AbsStr))):
            return Cell(tags, const=(op == "NotEq"), dt="bool")
    if op == "Eq" and a.lab == b.lab == "D" and any(T.fn_of(x.term) == "MIN" or x.rep == "low" for x in (a, b)):
        return Cell(tags, dt="bool", rep="firstD")
    if "O" in (a.lab, b.lab) or "total" in (ca, cb):
        return Cell(tags | texttest(ca, cb), dt="bool", rep="cmp:%s:%s:%s" % (op, *sorted(x.lab or (repr(x.const) if isinstance(x.const, str) else "?") for x in (a, b))))
    return Cell(tags | texttest(ca, cb), dt="bool")


def texttest(*consts):
    return {"texttest"} if any(isinstance(x, str) for x in consts) else EMPTY


def cell_unary(I, name, c, n):
    """elementwise function of one cell"""
    d, t = c.dim, None
    if name in ("abs", "absolute", "fabs", "negative", "USub", "positive", "UAdd"):
        if isinstance(c.const, (int, float)):
            return const_cell(-c.const if name in ("negative", "USub") else abs(c.const) if name not in ("positive", "UAdd") else c.const, c.tags)
        if name in ("negative", "USub"):
            t = T.mul(T.const(-1), c.term) if c.term is not None else None
        elif name in ("positive", "UAdd"):
            return c
        else:
            t = T.atom("abs", c.term) if c.term is not None else None
        return c.w(term=t, const=NOC, lab=None if c.lab in ("O", "D") else c.lab)
    if name in ("sqrt", "square", "cbrt", "reciprocal"):
        e = {"sqrt": F(1, 2), "square": F(2), "cbrt": F(1, 3), "reciprocal": F(-1)}[name]
        if isinstance(c.const, (int, float)) and c.const >= 0 and (name != "reciprocal" or c.const):
            return const_cell(float(c.const) ** float(e), c.tags)
        nd = None
        if d == Z:
            nd = Z
        elif d is not None:
            q = dim_norm(d)
            nd = ("P", q[1] * e, q[2] * e) if isP(q) else None
        tt = T.power(c.term, (e, F(0))) if c.term is not None else None
        return Cell(c.tags, nd, None, None, tt, NOC, "num")
    if name in ("log", "log1p", "log2", "log10", "exp", "expm1", "exp2"):
        if isinstance(c.const, (int, float)):
            try:
                return const_cell(getattr(math, name)(c.const), c.tags)
            except Exception:
                return Cell(c.tags, dim=Z, dt="num")
        nd = None
        if d is not None and d != Z:
            q = dim_norm(d)
            if name.startswith("log"):
                if name == "log1p":
                    if q != D0 and isP(q):
                        I.event("dim", n, "log1p of %s" % dim_show(q))
                    nd = D0 if q == D0 else None
                elif isP(q):
                    nd = D0 if q == D0 else ("LOG", q[1], q[2])
            else:
                if q[0] == "LOG":
                    nd = ("P", q[1], q[2]) if name == "exp" else None
                elif q == D0:
                    nd = D0
                else:
                    I.event("dim", n, "%s of %s" % (name, dim_show(q)))
        elif d == Z:
            nd = Z
        if name == "exp" and c.term is not None:
            k_ = T.single(c.term)
            if k_ and k_[0] == "log":
                return Cell(c.tags, nd, None, None, k_[1], NOC, "num")
        t = T.atom(name, c.term) if c.term is not None else None
        return Cell(c.tags, nd, None, None, t, NOC, "num")
    if name in ("floor", "ceil", "rint", "round", "around", "trunc", "fix", "round_"):
        if isinstance(c.const, (int, float)) and c.const == c.const:
            f = {"floor": math.floor, "ceil": math.ceil}.get(name, round)
            return const_cell(f(c.const), c.tags)
        if miss.TST[0]:
            return c.w(term=T.atom(name, c.term) if c.term is not None else None, const=NOC)
        return rounded(I, c, n, None)
    if name in ("isnan", "isnull", "isna", "notnull", "notna", "isfinite", "isinf", "signbit", "logical_not"):
        r = NOC
        if c.const is not NOC and not isinstance(c.const, AbsStr):
            try:
                nan = c.const is None or c.const != c.const
                r = {"isnan": nan, "isnull": nan, "isna": nan, "notnull": not nan, "notna": not nan}.get(name, NOC)
                if name == "logical_not":
                    r = not c.const
            except Exception:
                r = NOC
        return miss.of_test(Cell(c.tags, dt="bool", const=r), name, c)
    if name == "sign":
        return Cell(c.tags, D0, dt="num", term=T.atom("sign", c.term) if c.term is not None else None)
    if name in ("tanh", "sin", "cos", "tan", "arctan"):
        return Cell(c.tags, D0, dt="num")
    return Cell(c.tags, dt="num")


# ======================================================================
# lifting over containers
# ======================================================================
def asobj(I, v, st):
    if isinstance(v, Ref):
        return st.heap[v.oid]
    return None


def as_cell(I, v, st):
    """one cell summarising a value"""
    if isinstance(v, Sc):
        return v.cell
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, Ser):
            return o.all().tag(v.tags)
        if isinstance(o, Arr):
            return o.cell.tag(v.tags)
        if isinstance(o, Frame):
            c = None
            for x in o.cells():
                c = x if c is None else cell_join(c, x)
            return (c or UNK).tag(v.tags)
        if isinstance(o, Seq):
            c = None
            for x, _ in o.segs:
                y = as_cell(I, x, st)
                c = y if c is None else cell_join(c, y)
            return (c or UNK).tag(v.tags)
        if isinstance(o, Idx):
            c = None
            for x, _ in py.idx_segs(o.ix):
                c = x.cell if c is None else cell_join(c, x.cell)
            return (c or UNK).tag(v.tags)
        if isinstance(o, Opq):
            return Cell(o.cell.tags | v.tags)
        return Cell(I.tags_of(v, st))
    if isinstance(v, Un):
        c = None
        for a in v.atoms:
            if a == UNB or a == NONE:
                continue
            y = as_cell(I, a, st)
            c = y if c is None else cell_join(c, y)
        return c or UNK
    return Cell(I.tags_of(v, st))


def to_arr(I, v, st):
    """view a list/index/array value as an Arr object (not allocated)"""
    o = asobj(I, v, st)
    if isinstance(o, Arr):
        return o
    if isinstance(o, Seq):
        if o.exact() and o.segs and all(isinstance(x, Sc) for x, _ in o.segs) and len(o.segs) <= 24:
            cs = tuple(x.cell for x, _ in o.segs)
            c = cs[0]
            for y in cs[1:]:
                c = cell_join(c, y)
            return Arr(cell=c, exact=cs, order=o.order)
        c = as_cell(I, v, st)
        nd = 2 if any(isinstance(x, Ref) and isinstance(st.heap[x.oid], (Seq, Arr)) for x, _ in o.segs) else 1
        return Arr(cell=c, order=o.order, nd=nd)
    if isinstance(o, Idx):
        return Arr(cell=o.ix.cells[0] if len(o.ix.cells) == 1 and o.ix.cells[0] is not None else as_cell(I, v, st), ix=o.ix)
    if isinstance(o, Ser):
        g = Arr(cell=o.cell if o.cell is not None else o.all(), special=dict(o.special), ix=o.ix, ro=o.ro)
        if "rev" in o.ro:
            g.cell, g.ro = rev_cell(g.cell), g.ro - {"rev"}
        if miss.AVG[0] and miss.known_rows(o.ix) not in (None, "?") and g.cell.term is not None and not T.is_num(g.cell.term):
            g.cell, g.ix = g.cell.w(term=T.atom("sel", g.cell.term, miss.known_rows(o.ix))), None
        return g
    if isinstance(o, Frame):
        return Arr(cell=as_cell(I, v, st), nd=2, ro=o.ro)
    return Arr(cell=as_cell(I, v, st))


def lift(I, vals, fn, n, st):
    """apply a cell function elementwise with broadcasting; fresh result"""
    vs = []
    for v in vals:
        if isinstance(v, Un):
            atoms = [a for a in v.atoms if a != UNB and a != NONE]
            if len(atoms) == 1:
                v = atoms[0]
            elif len(atoms) > 1:
                i = len(vs)
                return I.per_atom(Un(tuple(atoms)), lambda a, s: lift(I, vs + [a] + list(vals[i + 1:]), fn, n, s), st)
        vs.append(v)
    objs = [asobj(I, v, st) for v in vs]
    extra = EMPTY
    for v in vs:
        if isinstance(v, Ref):
            extra |= v.tags
    if any(isinstance(v, Top) or (isinstance(o, (Opq, Inst, Dct, Grp, Rng))) for v, o in zip(vs, objs)):
        # an unknown operand: keep the shape of a known frame/series operand
        shp = [o for o in objs if isinstance(o, (Frame, Ser))]
        if not shp or any(isinstance(o, Opq) and o.typ == "object" for o in objs):
            t = EMPTY
            for v in vs:
                t |= I.tags_of(v, st)
            return Top(t)
    frames = [i for i, o in enumerate(objs) if isinstance(o, Frame)]
    sers = [i for i, o in enumerate(objs) if isinstance(o, Ser)]
    arrs = [i for i, o in enumerate(objs) if isinstance(o, (Arr, Seq, Idx))]

    def tagc(c):
        return c.tag(extra)

    if frames:
        f = objs[frames[0]]
        fs = [objs[i] for i in frames]
        names = []
        for g in fs:
            for c in g.cols:
                if c not in names:
                    names.append(c)

        def val_for(i, name, sp):
            o = objs[i]
            if isinstance(o, Frame):
                col = o.cols.get(name) if name is not None else None
                if col is None:
                    col = o.rest if (name is None or not o.cols) else (o.rest if o.open else None)
                if col is None:
                    return const_cell(NAN)
                return col.special.get(sp, col.cell) or UNK
            if isinstance(o, Ser):
                # aligned on columns
                if name is not None and name in o.special:
                    return o.special[name]
                return o.cell if o.cell is not None else UNK
            if isinstance(o, (Arr, Seq, Idx)):
                return to_arr(I, vs[i], st).cell
            return as_cell(I, vs[i], st)

        g = Frame(ix=f.ix, restlab=f.restlab, colsname=f.colsname, open=f.open)
        for x in fs[1:]:
            if x.ix.special and not g.ix.special:
                g.ix = x.ix
        for nm in names:
            sps = []
            for x in fs:
                if nm in x.cols:
                    sps += [s for s in x.cols[nm].special if s not in sps]
            g.cols[nm] = Col(tagc(fn(*[val_for(i, nm, None) for i in range(len(vs))])),
                             {s: tagc(fn(*[val_for(i, nm, s) for i in range(len(vs))])) for s in sps})
        if any(x.rest is not None for x in fs):
            sps = []
            for x in fs:
                if x.rest is not None:
                    sps += [s for s in x.rest.special if s not in sps]
            g.rest = Col(tagc(fn(*[val_for(i, None, None) for i in range(len(vs))])),
                         {s: tagc(fn(*[val_for(i, None, s) for i in range(len(vs))])) for s in sps})
            for x in fs:
                if x.restlab:
                    g.restlab = x.restlab
        for x in fs:
            g.ro |= x.ro
        return I.new(st, g, n)
    if sers:
        s0 = objs[sers[0]]
        ix = s0.ix
        sps = list(s0.special)
        for i in sers[1:]:
            o = objs[i]
            for s in o.special:
                if s not in sps:
                    sps.append(s)
            if len(o.ix.special) > len(ix.special):
                ix = o.ix.w(names=ix.names) if len(o.ix.cells) == len(ix.cells) else o.ix

        def sval(i, sp):
            o = objs[i]
            if isinstance(o, Ser):
                if sp is not None:
                    if sp in o.special:
                        return o.special[sp]
                    if sp in o.ix.special and o.cell is not None:
                        return o.cell
                    if len(sers) > 1:
                        return const_cell(NAN)
                    return o.cell if o.cell is not None else UNK
                return o.cell if o.cell is not None else UNK
            if isinstance(o, (Arr, Seq, Idx)):
                ar = to_arr(I, vs[i], st)
                if sp is not None and sp in ar.special:
                    return ar.special[sp]
                return ar.cell
            return as_cell(I, vs[i], st)
        has_cell = any(objs[i].cell is not None for i in sers)
        names = {objs[i].name for i in sers if not isinstance(objs[i].name, type(NOC))} if len(sers) > 1 else {s0.name}
        g = Ser(cell=tagc(fn(*[sval(i, None) for i in range(len(vs))])) if has_cell else None,
                special={s: tagc(fn(*[sval(i, s) for i in range(len(vs))])) for s in sps}, ix=ix)
        g.name = s0.name if len(names) == 1 and all(objs[i].name == s0.name for i in sers) else (None if len(sers) > 1 else s0.name)
        for i in sers:
            g.ro |= objs[i].ro
        return I.new(st, g, n)
    if arrs:
        as_ = {i: to_arr(I, vs[i], st) for i in arrs}
        exs = [as_[i].exact for i in arrs]
        order = None
        orders = {as_[i].order for i in arrs if as_[i].order is not None}
        if len(orders) == 1:
            order = orders.pop()
        g = Arr(nd=max(as_[i].nd for i in arrs), order=order)
        for i in arrs:
            if as_[i].ix is not None and g.ix is None:
                g.ix = as_[i].ix
            g.ro |= as_[i].ro
        if all(e is not None for e in exs) and len({len(e) for e in exs}) == 1:
            m = len(exs[0])
            out = []
            for j in range(m):
                out.append(tagc(fn(*[(as_[i].exact[j] if i in as_ else as_cell(I, vs[i], st)) for i in range(len(vs))])))
            c = out[0] if out else UNK
            for x in out[1:]:
                c = cell_join(c, x)
            g.exact, g.cell = tuple(out), c
        else:
            g.cell = tagc(fn(*[(as_[i].cell if i in as_ else as_cell(I, vs[i], st)) for i in range(len(vs))]))
            sps = []
            for i in arrs:
                sps += [s for s in as_[i].special if s not in sps]
            for s in sps:
                g.special[s] = tagc(fn(*[(as_[i].special.get(s, as_[i].cell) if i in as_ else as_cell(I, vs[i], st)) for i in range(len(vs))]))
        return I.new(st, g, n)
    return Sc(fn(*[as_cell(I, v, st) for v in vs]))


def binop(I, op, a, b, n, st):
    oa, ob = asobj(I, a, st), asobj(I, b, st)
    if isinstance(oa, Seq) and oa.kind != "gen" and op == "Add" and isinstance(ob, Seq):
        return I.new(st, Seq(kind=oa.kind, segs=(oa.segs + ob.segs) if len(oa.segs) + len(ob.segs) <= 60 else [(val_join(I.elem(a, n, st), I.elem(b, n, st)), True)]), n)
    if isinstance(oa, Seq) and op == "Mult" and isinstance(b, Sc):
        c = constof(b)
        if isinstance(c, int) and oa.exact() and c * len(oa.segs) <= 24:
            return I.new(st, Seq(kind=oa.kind, segs=oa.segs * c), n)
        return I.new(st, Seq(kind=oa.kind, segs=[(I.elem(a, n, st), True)] if oa.segs else []), n)
    if isinstance(ob, Seq) and op == "Mult" and isinstance(a, Sc):
        return binop(I, op, b, a, n, st)
    if isinstance(oa, Seq) and oa.kind == "set" and op in ("Sub", "BitAnd", "BitOr", "BitXor"):
        m = {"Sub": "difference", "BitAnd": "intersection", "BitOr": "union", "BitXor": "symmetric_difference"}[op]
        return py.seq_method(I, a, m, [b], {}, n, st)
    if isinstance(oa, Dct) and op == "BitOr":
        d = Dct(items=dict(oa.items), rest=oa.rest)
        py.dict_update(I, d, b, n, st)
        return I.new(st, d, n)
    if op == "Div" and (isinstance(oa, Opq) and oa.typ == "path" or isinstance(ob, Opq) and ob.typ == "path"):
        x, y = path_text(a, st), path_text(b, st)
        return new_path(I, None if x is None or y is None else os.path.join(x, y), I.tags_of(a, st) | I.tags_of(b, st), n, st)
    if op == "Mod" and isinstance(a, Sc) and isinstance(constof(a), str):
        return py.str_percent(I, constof(a), b, n, st)
    if op == "MatMult":
        return I.opaque([a, b], {}, st)
    if (a == NONE or b == NONE) and op in ("Add", "Sub", "Mult", "Div", "Pow"):
        I.fail("type-error", n, "None used as an operand", st=st)
    for v, o in ((a, oa), (b, ob)):
        if isinstance(o, Inst) and o.cls in I.classes:
            nm = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}.get(op)
            m = I.find_member(o.cls, nm) if nm and v is a else None
            if m:
                return I.call_user(FnV(m, a), [b], {}, n, st)
            return I.opaque([a, b], {}, st)
    I.opcount[op] = I.opcount.get(op, 0) + 1
    align_check(I, op, oa, ob, n)
    return lift(I, [a, b], lambda x, y: cell_binop(I, op, x, y, n), n, st)


def align_check(I, op, oa, ob, n):
    """frame (op) series aligns the series' index with the frame's columns"""
    for f, s in ((oa, ob), (ob, oa)):
        if isinstance(f, Frame) and isinstance(s, Ser) and f.rest is not None and not f.cols:
            if len(s.ix.cells) == 1 and s.ix.cells[0] is not None and s.cell is not None:
                l = s.ix.cells[0].lab
                if l in ("O", "D") and f.restlab in ("O", "D") and l != f.restlab:
                    I.event("misalign", n, "a series indexed by %s is aligned with %s columns" % (lab_name(l), lab_name(f.restlab)))


def unop(I, op, v, n, st):
    if op == "Invert":
        def inv(c):
            return miss.negate(Cell(c.tags, dt=c.dt, const=(not c.const) if isinstance(c.const, bool) else NOC), c)
        return lift(I, [v], inv, n, st)
    if v == NONE:
        I.fail("type-error", n, "None used as an operand", st=st)
    return lift(I, [v], lambda c: cell_unary(I, op, c, n), n, st)


def compare(I, op, a, b, n, st):
    if op in ("Is", "IsNot"):
        r = None
        if isinstance(a, Un) or isinstance(b, Un):
            u, o = (a, b) if isinstance(a, Un) else (b, a)
            if o == NONE:
                rs = {x == NONE for x in u.atoms if not isinstance(x, Top)}
                if not any(isinstance(x, Top) or x == UNB for x in u.atoms) and len(rs) == 1:
                    r = rs.pop()
                t = EMPTY
                for x in u.atoms:
                    if isinstance(x, (Ref, Top)):
                        t |= x.tags
                return Sc(Cell(t, const=NOC if r is None else (r if op == "Is" else not r), dt="bool"))
        elif b == NONE or a == NONE:
            o = a if b == NONE else b
            if o == NONE:
                r = True
            elif not isinstance(o, Top) and not (isinstance(o, Sc) and o.cell.const is NOC and o.cell.dt is None and o.cell.dim is None and o.cell.lab is None):
                r = False
        elif isinstance(a, Sc) and isinstance(b, Sc):
            ca, cb = constof(a), constof(b)
            if isinstance(ca, bool) and isinstance(cb, bool):
                r = ca is cb
            elif ca is not NOC and cb is not NOC and isinstance(ca, bool) != isinstance(cb, bool):
                r = False
        elif isinstance(a, Ref) and isinstance(b, Ref):
            r = a.oid == b.oid
        elif isinstance(a, (LibV, ClsV)) and isinstance(b, (LibV, ClsV)):
            r = a == b
        tg = I.tags_of(a, st) | I.tags_of(b, st) if isinstance(a, (Sc, Top)) and isinstance(b, (Sc, Top)) else EMPTY
        return Sc(Cell(tg, const=NOC if r is None else (r if op == "Is" else not r), dt="bool"))
    if op in ("In", "NotIn"):
        r = contains(I, a, b, n, st)
        t = I.tags_of(a, st) | (I.tags_of(b, st) if not isinstance(asobj(I, b, st), (Frame,)) else EMPTY)
        b_ = Sc(Cell(t, const=NOC if r is None else (r if op == "In" else not r), dt="bool"))
        return Sc(miss.of_in(b_.cell, op, a, asobj(I, b, st))) if miss.ON[0] else b_
    oa, ob = asobj(I, a, st), asobj(I, b, st)
    if isinstance(oa, Seq) and isinstance(ob, Seq) and op in ("Eq", "NotEq", "Lt", "Gt", "LtE", "GtE"):
        r = NOC
        if oa.exact() and ob.exact():
            ca, cb = [constof(x) for x, _ in oa.segs], [constof(x) for x, _ in ob.segs]
            if oa.kind == "set":
                ca, cb = set(ca), set(cb)
            if NOC not in ca and NOC not in cb:
                try:
                    r = CMP[op](ca, cb)
                except TypeError:
                    r = NOC
        return Sc(Cell(I.tags_of(a, st) | I.tags_of(b, st), dt="bool", const=r))
    if (a == NONE) != (b == NONE) and op in ("Eq", "NotEq") and not isinstance(a, (Top, Un)) and not isinstance(b, (Top, Un)):
        o = b if a == NONE else a
        if not (isinstance(o, Sc) and o.cell.const is NOC) and not isinstance(asobj(I, o, st), (Frame, Ser, Arr)):
            return k(op == "NotEq")
    if isinstance(a, (LibV, ClsV)) and isinstance(b, (LibV, ClsV)):
        return k((a == b) == (op == "Eq"))
    return lift(I, [a, b], lambda x, y: cell_compare(I, op, x, y, n), n, st)


def contains(I, a, b, n, st):
    c = constof(a)
    if isinstance(b, Sc):
        cb = b.cell.const
        if isinstance(cb, AbsStr) and isinstance(c, str):
            if c == "." and cb.dot is not None:
                return cb.dot
            if c and (c in cb.suffix or c in cb.prefix):
                return True
            return None
        if cb is not NOC and c is not NOC and not isinstance(c, AbsStr):
            try:
                return c in cb
            except TypeError:
                return None
        return None
    o = asobj(I, b, st)
    if isinstance(o, Seq):
        cs = [constof(x) for x, _ in o.segs]
        if c is not NOC:
            if isinstance(c, AbsStr):
                if any(cell_eq_str(c, x) is None for x in cs):
                    return None
                return any(cell_eq_str(c, x) for x in cs)
            if any(x is not NOC and not isinstance(x, AbsStr) and x == c for x, (_, m) in zip(cs, o.segs) if True):
                return True
            if all(x is not NOC for x in cs) and not any(isinstance(x, AbsStr) for x in cs):
                return False
        return None
    if isinstance(o, Dct):
        if c is not NOC:
            if c in o.items:
                return True
            if o.rest is None:
                return False
        return None
    if isinstance(o, Idx):
        if c is not NOC:
            if c in o.ix.special:
                return True
            if len(o.ix.cells) == 1:
                if o.ix.cells[0] is None:
                    return None if o.ix.names == (NOC,) else False
                if isinstance(c, (str, AbsStr)) and o.ix.cells[0].lab in ("O", "D"):
                    return False
        if isinstance(a, Sc) and len(o.ix.cells) == 1 and o.ix.cells[0] is not None and a.cell.lab and a.cell.lab == o.ix.cells[0].lab:
            return True
        return None
    if isinstance(o, Frame):
        if c is not NOC:
            if c in o.cols:
                return True if not o.cols[c].maybe else None
            if not o.open and o.rest is None:
                return False
            if not o.open and isinstance(c, (str, AbsStr)) and o.restlab in ("O", "D"):
                return False
        return None
    if isinstance(o, Arr) and o.exact is not None and c is not NOC:
        cs = [x.const for x in o.exact]
        if NOC not in cs:
            return c in cs
    return None


def cell_eq_str(a, b):
    """abstract string a == constant b ?  True/False/None"""
    if a == b:
        return True if a.kind != "some" else None
    if isinstance(b, AbsStr) and "some" in (a.kind, b.kind):
        x, y = a.prefix, b.prefix
        return None if x.startswith(y) or y.startswith(x) else False
    if isinstance(b, str):
        if a.suffix and not b.endswith(a.suffix) or a.prefix and not b.startswith(a.prefix):
            return False
        return None
    if not isinstance(b, AbsStr) and b is not NOC:
        return False
    return None


# ======================================================================
# scalar builtins
# ======================================================================
def cast_scalar(I, v, typ, n, st):
    nm = typ.name.split(".")[-1] if isinstance(typ, LibV) else constof(typ)
    return Sc(cast_cell(I, as_cell(I, v, st), nm, n))


def cast_cell(I, c, nm, n):
    if not isinstance(nm, str):
        return c
    if nm.startswith("int") or nm.startswith("uint") or nm in ("i8", "i4"):
        if isinstance(c.const, (int, float)) and c.const == c.const and abs(c.const) != float("inf"):
            return const_cell(int(c.const), c.tags)
        if isP(c.dim) and c.dim != D0 and c.lab is None:
            I.event("dim", n, "an amount is truncated to an integer")
            return c.w(term=None, const=NOC)
        if c.dim == D0 and c.lab is None and c.dt not in ("bool", "pyint", "count") and c.term is not None:
            return c.w(term=T.atom("int", c.term), const=NOC)
        return c.w(dt="label" if c.lab in ("O", "D") else "num") if c.const is NOC else c
    if nm.startswith("float") or nm in ("f8", "double", "number"):
        if isinstance(c.const, str):
            return Cell(c.tags, dt="num")
        return c if c.dt != "bool" else Cell(c.tags, D0, dt="num")
    if nm in ("str", "object_", "string", "str_", "category"):
        if nm == "category":
            return c
        return c.w(dt="label-str" if c.lab else "str", term=c.term, dim=None,
                   const=str(c.const) if c.const is not NOC and isinstance(c.const, (int, str)) else NOC)
    if nm.startswith("bool"):
        return Cell(c.tags, dt="bool", const=bool(c.const) if isinstance(c.const, (int, float)) else NOC)
    return c


def scalar_builtin(I, name, args, kwargs, n, st):
    tags = alltags(I, args, kwargs, st)
    if not args:
        return {"int": k(0), "float": k(0.0), "str": k(""), "bool": FALSE}.get(name, TOP)
    v = args[0]
    if name == "str":
        if isinstance(v, Sc) and isinstance(constof(v), AbsStr):
            return v
        if isinstance(v, Sc) and v.cell.lab:
            return Sc(v.cell.w(dt="label-str"))
        return py.format_value(I, v, "", st)
    if name == "bool":
        t = I.truth(v, st)
        return Sc(Cell(tags, const=NOC if t is None else t, dt="bool"))
    if name in ("int", "float"):
        if v == NONE:
            I.fail("type-error", n, "%s(None)" % name, st=st)
        c = as_cell(I, v, st)
        if isinstance(c.const, str):
            try:
                return k((int if name == "int" else float)(c.const), tags)
            except ValueError:
                I.fail("type-error", n, "%s(%r)" % (name, c.const), st=st)
        r = cast_cell(I, c, name, n)
        if r.const is NOC and r.dt != "label":
            r = r.w(dt="pyint" if name == "int" else "float")
            if miss.TST[0] and r.term is None and isinstance(v, (Top, Sc)) and (isinstance(v, Top) or v.cell.dt in ("str", None)):
                r = r.w(term=T.atom("parsed"))
        return Sc(r)
    if name == "abs":
        return lift(I, [v], lambda c: cell_unary(I, "abs", c, n), n, st)
    if name == "round":
        c = as_cell(I, v, st)
        if isinstance(c.const, (int, float)):
            d = constof(args[1]) if len(args) > 1 else None
            return k(round(c.const, d) if isinstance(d, int) else round(c.const), tags)
        return lift(I, [v], lambda c: rounded(I, c, n, st), n, st)
    if name == "pow" and len(args) > 1:
        return binop(I, "Pow", v, args[1], n, st)
    if name == "divmod" and len(args) > 1:
        return I.seq(st, [binop(I, "FloorDiv", v, args[1], n, st), binop(I, "Mod", v, args[1], n, st)], node=n)
    return Top(tags)


AGGR = {"sum", "mean", "nansum", "nanmean", "average", "std", "var"}


def red_cell(I, name, c, n, rows=None, whole=True):
    """cell of a reduction over rows/columns; whole: over every row of the table, hence over every simulation of simulated values"""
    if whole and "simv" in c.tags and name not in ("any", "all", "size", "count", "nunique", "count_nonzero"):
        c = c.w(tags=c.tags | {"xsim"})
    if miss.ON[0] and (name == "count" and miss.has(c) or name == "sum" and (c.dt == "bool" and miss.nanbranch(c) is not None or miss.leading(c))):
        c = c.w(tags=c.tags - miss.BAD | {"counted"})
    if "amt" in c.tags and "sel" not in c.tags and name in AGGR and c.const is NOC:
        c = c.w(tags=c.tags | {"unweighted"})
    t = None
    if name in ("nansum", "nanmean", "nanmax", "nanmin", "nanmedian", "nanstd", "nanvar", "nanpercentile", "nanquantile", "nanprod"):
        name = name[3:]
    if name in ("amax", "amin"):
        name = name[1:]
    if c.term is not None and name in ("sum", "mean", "max", "min", "median", "std", "var", "prod", "sem"):
        if name in ("sum", "mean"):
            t = T.linear(name.upper(), c.term, rows)
        else:
            t = T.atom(name.upper(), c.term, rows) if rows is not None else None
        if name in ("max", "min", "mean", "median") and T.is_num(c.term):
            t = c.term
    lab = c.lab if name in ("max", "min", "first", "last", "nth", "median", "mode", "quantile", "percentile") and c.lab else None
    d = eff_dim(c)
    rep = None
    if name in ("sum", "mean", "median", "max", "min", "first", "last", "quantile", "percentile", "nth"):
        rep = c.rep
    if name == "min" and c.lab == "D":
        rep = "low"
    if name in ("sum", "mean", "median", "max", "min", "first", "last", "std", "mad", "sem", "quantile", "percentile", "nth", "ptp", "mode"):
        return Cell(c.tags, d if d != LIT else D0, lab, rep, t, c.const if name in ("first", "last", "max", "min", "mode") and isinstance(c.const, str) else NOC, "num" if not lab else c.dt)
    if name in ("var",):
        return Cell(c.tags, cell_binop(I, "Mult", c.w(lab=None), c.w(lab=None), n).dim, None, None, t, NOC, "num")
    if name in ("count", "nunique", "size", "argmax", "argmin", "count_nonzero", "cumcount", "ngroup"):
        return Cell(c.tags, D0, "pos" if name.startswith("arg") else None, None, T.atom("nn", c.term) if miss.AVG[0] and name == "count" and rows == "allO" and c.term is not None else None, NOC, "pyint")
    if name in ("any", "all"):
        q = miss.truthy(c) if miss.AVG[0] else None
        return Cell(c.tags, dt="bool", term=T.atom(name, q) if q is not None else None, const=c.const if isinstance(c.const, bool) else NOC)
    if name in ("prod", "product"):
        return Cell(c.tags, D0 if d in (D0, LIT) else None, None, None, t, NOC, "num")
    if name in ("skew", "kurt", "kurtosis"):
        return Cell(c.tags, D0, dt="num")
    return Cell(c.tags, dt="num")


def reduce_builtin(I, name, args, kwargs, n, st):
    tags = alltags(I, args, kwargs, st)
    if not args:
        return TOP
    if name == "sum":
        v = args[0]
        o = asobj(I, v, st)
        segs, _ = iterate(I, v, n, st)
        start = args[1] if len(args) > 1 else kwargs.get("start")
        if isinstance(o, (Ser, Arr)) and not (isinstance(o, Arr) and o.exact):
            return Sc(red_cell(I, "sum", as_cell(I, v, st), n, rows_tok(o)))
        if not segs:
            return start or k(0)
        acc = start
        for x, m in segs:
            if m:
                c = as_cell(I, x, st)
                x = Sc(red_cell(I, "sum", c, n) if not miss.FORM[0] else red_cell(I, "sum", c, n).w(term=miss.bound_sum(c).term)) if isinstance(x, (Sc, Top)) else x
            acc = x if acc is None else binop(I, "Add", acc, x, n, st)
        return acc
    vals = args
    if len(args) == 1:
        vals = [v for v, _ in iterate(I, args[0], n, st)[0]]
    if not vals:
        return kwargs.get("default", TOP)
    cs = [constof(v) for v in vals]
    if all(isinstance(c, (int, float)) for c in cs) and "key" not in kwargs and \
            (len(args) > 1 or all(not m for _, m in iterate(I, args[0], n, st)[0])):
        return k(max(cs) if name == "max" else min(cs), tags)
    c = as_cell(I, vals[0], st)
    first = c
    for v in vals[1:]:
        y = as_cell(I, v, st)
        if isP(eff_dim(c)) and isP(eff_dim(y)) and dim_norm(c.dim) != dim_norm(y.dim) and LIT not in (c.dim, y.dim):
            I.event("dim", n, "%s of %s and %s" % (name, dim_show(c.dim), dim_show(y.dim)))
        elif LIT in (c.dim, y.dim) and any(isP(x) and x != D0 for x in (c.dim, y.dim)):
            I.event("dim", n, "%s of an amount and a literal" % name)
        c = cell_join(c, y)
    if len(vals) > 1:
        c = c.w(const=NOC, term=T.atom(name, *[as_cell(I, v, st).term for v in vals]) if c.lab is None else None)
    else:
        c = c.w(const=NOC, term=None if c.lab is None else c.term)
    return Sc(c.tag(tags))


def rows_tok(o):
    ix = getattr(o, "ix", None)
    if ix is None or len(ix.cells) != 1 or ix.cells[0] is None:
        return None if not miss.TST[0] or ix is not None and ix.special else "rows"
    c = ix.cells[0]
    if c.const is not NOC:
        return None
    if miss.TST[0] and not ix.special and c.lab not in ("O", "D"):
        return "rows"
    if c.lab in ("O", "D") and (not ix.special):
        return "all" + c.lab if getattr(c, "rep", None) in (None, "nnall") else "%s:%s" % (c.lab, c.rep)
    return None


# ======================================================================
# library attributes and calls
# ======================================================================
MODS = {"numpy", "pandas", "scipy", "matplotlib", "seaborn", "functools", "itertools", "warnings", "os", "sys", "math",
        "collections", "pathlib", "statsmodels", "random", "time", "copy", "json", "re", "numbers", "operator"}
CONSTS = {"numpy.nan": NAN, "numpy.NaN": NAN, "numpy.NAN": NAN, "numpy.inf": float("inf"), "numpy.Inf": float("inf"), "math.nan": NAN,
          "math.inf": float("inf"), "math.pi": math.pi, "numpy.pi": math.pi, "math.e": math.e, "numpy.e": math.e, "numpy.newaxis": None,
          "pandas.NA": NAN, "pandas.NaT": NAN, "numpy.PINF": float("inf"), "numpy.NINF": float("-inf")}
CHECKED = {"numpy", "pandas", "numpy.random", "scipy.stats", "scipy.special", "scipy.optimize", "matplotlib.pyplot", "seaborn",
           "functools", "itertools"}


def lib_attr(I, base, name, n, st):
    full = base + "." + name
    if full in CONSTS:
        return k(CONSTS[full])
    if base in CHECKED and not name.startswith("__"):
        names = I.api["modules"][base]
        if name not in names and name not in ("options", "api", "tseries", "core", "lib", "axes", "cm"):
            I.fail("missing-attr", n, "module %s has no attribute '%s'" % (base, name), attr=name, st=st)
    if full == "matplotlib.rcParams" or full == "matplotlib.pyplot.rcParams":
        return LibV("matplotlib.rcParams")
    return LibV(full)


def lib_getitem(I, base, key, n, st):
    return Top(I.tags_of(key, st))


GLOBAL_EFFECTS = {
    "warnings.simplefilter": "warnings", "warnings.filterwarnings": "warnings", "warnings.resetwarnings": "warnings",
    "numpy.seterr": "numpy error state", "numpy.seterrcall": "numpy error state", "numpy.set_printoptions": "numpy print options",
    "numpy.random.seed": "random state", "numpy.random.set_state": "random state", "random.seed": "random state",
    "pandas.set_option": "pandas options", "pandas.reset_option": "pandas options",
    "matplotlib.use": "matplotlib backend", "matplotlib.rc": "matplotlib rc", "matplotlib.pyplot.rc": "matplotlib rc",
    "matplotlib.pyplot.style.use": "matplotlib style", "matplotlib.style.use": "matplotlib style",
    "matplotlib.rcParams.update": "matplotlib rc", "matplotlib.pyplot.switch_backend": "matplotlib backend",
    "matplotlib.pyplot.rcdefaults": "matplotlib rc", "matplotlib.rcdefaults": "matplotlib rc", "matplotlib.pyplot.ion": "matplotlib",
    "matplotlib.pyplot.ioff": "matplotlib",
    "seaborn.set": "seaborn", "seaborn.set_theme": "seaborn", "seaborn.set_style": "seaborn", "seaborn.set_context": "seaborn",
    "seaborn.set_palette": "seaborn", "seaborn.reset_defaults": "seaborn", "seaborn.reset_orig": "seaborn",
    "os.chdir": "working directory", "os.putenv": "environment", "os.environ.update": "environment", "os.environ.setdefault": "environment",
    "os.unsetenv": "environment", "os.environ.pop": "environment", "os.umask": "umask",
    "sys.setrecursionlimit": "interpreter", "sys.path.append": "interpreter", "sys.path.insert": "interpreter",
    "locale.setlocale": "locale", "logging.basicConfig": "logging", "logging.disable": "logging", "gc.disable": "interpreter",
    "faulthandler.enable": "interpreter", "signal.signal": "interpreter", "decimal.setcontext": "decimal",
    "scipy.special.seterr": "scipy error state", "os.remove": "files", "os.unlink": "files", "os.mkdir": "files", "os.makedirs": "files",
    "os.rename": "files", "shutil.rmtree": "files", "shutil.copy": "files", "os.system": "process", "subprocess.run": "process",
    "subprocess.Popen": "process", "subprocess.call": "process", "numpy.save": "files", "numpy.savetxt": "files", "numpy.savez": "files",
    "pandas.to_pickle": "files", "pickle.dump": "files", "json.dump": "files", "atexit.register": "interpreter",
    "matplotlib.interactive": "matplotlib", "multiprocessing.set_start_method": "process", "sys.setswitchinterval": "interpreter",
}
ENTROPY = ("random.", "secrets.", "uuid.", "time.time", "time.perf_counter", "time.monotonic", "os.urandom", "datetime.datetime.now",
           "datetime.datetime.today", "datetime.now", "os.getpid", "time.process_time", "time.time_ns", "datetime.date.today", "builtins.id", "builtins.hash")
DRAWS = {"normal", "choice", "gamma", "poisson", "uniform", "standard_normal", "standard_gamma", "rand", "randn", "randint", "random",
         "random_sample", "permutation", "shuffle", "binomial", "negative_binomial", "lognormal", "exponential", "beta", "chisquare",
         "multinomial", "integers", "sample", "ranf", "bytes", "pareto", "weibull", "standard_t", "triangular", "standard_exponential",
         "random_integers", "multivariate_normal", "geometric", "logistic", "laplace", "vonmises", "wald"}

UFUNC1 = {"sqrt", "square", "cbrt", "reciprocal", "log", "log1p", "log2", "log10", "exp", "expm1", "abs", "absolute", "fabs", "negative",
          "positive", "floor", "ceil", "rint", "round", "around", "trunc", "fix", "isnan", "isfinite", "isinf", "logical_not", "sign",
          "signbit", "tanh", "sin", "cos", "tan", "arctan", "exp2", "round_"}
UFUNC2 = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "floor_divide": "FloorDiv",
          "mod": "Mod", "remainder": "Mod", "logical_and": "BitAnd", "logical_or": "BitOr", "logical_xor": "BitXor", "float_power": "Pow",
          "bitwise_and": "BitAnd", "bitwise_or": "BitOr"}
CMP2 = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}
REDS = {"sum", "mean", "median", "max", "min", "amax", "amin", "std", "var", "any", "all", "prod", "nansum", "nanmean", "nanmax", "nanmin",
        "nanmedian", "nanstd", "nanvar", "argmax", "argmin", "ptp", "count_nonzero", "product"}


def check_sig(I, sigs, what, args, kwargs, n, st):
    """definite mismatch between a library call and the callee's signature"""
    if sigs is None or "*" in kwargs or "**" in kwargs:
        return
    pos = [p for p in sigs if p[1] in ("p", "n")]
    names = {p[0] for p in sigs if p[1] in ("n", "k")}
    if len(args) > len(pos) and not any(p[1] == "*" for p in sigs):
        I.fail("bad-call", n, "%s() takes %d positional arguments but %d were given" % (what, len(pos), len(args)), st=st)
    has_kw = any(p[1] == "**" for p in sigs)
    for kw in kwargs:
        if kw not in names and not has_kw:
            I.fail("bad-call", n, "%s() got an unexpected keyword argument '%s'" % (what, kw), st=st)
    given = {p[0] for p in pos[:len(args)]}
    for kw in kwargs:
        if kw in given:
            I.fail("bad-call", n, "%s() got multiple values for argument '%s'" % (what, kw), st=st)
    for p in pos[len(args):]:
        if not p[2] and p[0] not in kwargs:
            I.fail("bad-call", n, "%s() missing required argument '%s'" % (what, p[0]), st=st)


def argget(args, kwargs, i, *names):
    if len(args) > i:
        return args[i]
    for nm in names:
        if nm in kwargs:
            return kwargs[nm]
    return None


SCOPES = (("warnings.", ("catch_warnings",)), ("numpy.seterr", ("errstate",)), ("numpy.set_printoptions", ("printoptions",)),
          ("pandas.", ("option_context",)), ("seaborn.set_context", ("plotting_context", "rc_context")),
          ("seaborn.set_style", ("axes_style", "rc_context")), ("seaborn.set_palette", ("color_palette", "rc_context")),
          ("seaborn.", ("rc_context",)), ("matplotlib.", ("rc_context", "context")), ("decimal.", ("localcontext",)))


def effect_scoped(I, name):
    """is the setting changed inside a with-block that restores it?"""
    open_ = [x for x in getattr(I, "with_stack", []) if x]
    for pre, ctx in SCOPES:
        if name.startswith(pre):
            return any(c in open_ for c in ctx)
    return False


def lib_call(I, name, args, kwargs, n, st):
    I.opcount[name] = I.opcount.get(name, 0) + 1
    if name.startswith("builtins."):
        b = name[9:]
        if b in ("id", "hash"):
            I.event("entropy", n, "calls %s()" % b, name=b)
        if b in ("print",):
            return NONE
        exc = getattr(py._b, b, None)
        if isinstance(exc, type) and issubclass(exc, BaseException):
            return I.new(st, Opq(typ="exception", cell=Cell(alltags(I, args, kwargs, st))), n)
        return py.builtin(I, b, args, kwargs, n, st)
    if name in GLOBAL_EFFECTS:
        scoped = effect_scoped(I, name)
        I.event("effect", n, "calls %s" % name, name=name, what=GLOBAL_EFFECTS[name], scoped=scoped)
    if any(name.startswith(e) if e.endswith(".") else name == e for e in ENTROPY):
        I.event("entropy", n, "calls %s" % name, name=name)
        return Top(frozenset(["rng:entropy"]))
    head = name.split(".")[0]
    if head == "numpy":
        r = np_call(I, name[6:], args, kwargs, n, st)
        if miss.FORM[0] and name[6:] == "ravel" and args and isinstance(asobj(I, args[0], st), Arr):
            return miss.flattened(asobj(I, args[0], st), r, st)
        if miss.AVG[0] and name[6:] in ("sort", "ones", "full", "all", "any"):
            return r
        return miss.unplaced(r, st) if miss.FORM[0] and name[6:] not in miss.NPKEEP and name[6:] not in UFUNC1 and name[6:] not in UFUNC2 else r
    if head == "pandas":
        return I.pd.pd_call(I, name[7:], args, kwargs, n, st)
    if head == "scipy":
        return scipy_call(I, name[6:], args, kwargs, n, st)
    if head in ("matplotlib", "seaborn"):
        return plot_call(I, name, args, kwargs, n, st)
    if name == "functools.partial" and args:
        return PartV(args[0], tuple(args[1:]), tuple(kwargs.items()))
    if name == "functools.reduce" and len(args) >= 2:
        segs, _ = iterate(I, args[1], n, st)
        acc = args[2] if len(args) > 2 else None
        for v, m in segs:
            if acc is None:
                acc = v
                if not m:
                    continue
            a2 = I.call(args[0], [acc, v], {}, n, st)
            acc = a2
        return acc if acc is not None else TOP
    if name.startswith("itertools."):
        f = name[10:]
        if f == "product":
            return py.product(I, args, kwargs, n, st)
        if f == "chain":
            segs = []
            for a in args:
                segs += iterate(I, a, n, st)[0]
            return I.new(st, Seq(kind="gen", segs=segs), n)
        if f == "chain.from_iterable" and args:
            segs = []
            for a, _ in iterate(I, args[0], n, st)[0]:
                segs += iterate(I, a, n, st)[0]
            return I.new(st, Seq(kind="gen", segs=segs), n)
        if f in ("starmap",) and len(args) > 1:
            out = []
            for v, m in iterate(I, args[1], n, st)[0]:
                out.append((I.call(args[0], [x for x, _ in iterate(I, v, n, st)[0]], {}, n, st), m))
            return I.new(st, Seq(kind="gen", segs=out, order=I.order_of(args[1], st)), n)
        if f == "count":
            return I.new(st, Seq(kind="gen", segs=[(sc(lab="pos", dt="pyint", dim=D0), True)]), n)
        if f in ("cycle", "repeat", "islice", "takewhile", "dropwhile") and args:
            a = args[-1] if f in ("takewhile", "dropwhile") else args[0]
            e = a if f == "repeat" else I.elem(a, n, st)
            return I.new(st, Seq(kind="gen", segs=[(e, True)]), n)
        if f == "zip_longest":
            return py.zip_(I, args, n, st)
        if f == "accumulate" and args:
            return I.new(st, Seq(kind="gen", segs=[(Top(I.tags_of(args[0], st)), True)]), n)
        if f in ("combinations", "permutations") and args:
            e = I.elem(args[0], n, st)
            return I.new(st, Seq(kind="gen", segs=[(I.seq(st, [e, e], node=n), True)]), n)
        return I.opaque(args, kwargs, st)
    if name == "warnings.catch_warnings":
        return I.new(st, Opq(typ="catch_warnings"), n)
    if name == "warnings.warn":
        I.event("warn", n, "emits a warning")
        return NONE
    if name in ("copy.copy", "copy.deepcopy") and args:
        return copy_value(I, args[0], name.endswith("deepcopy"), n, st)
    if name.startswith("math."):
        f = name[5:]
        if f in UFUNC1 and args:
            return Sc(cell_unary(I, f, as_cell(I, args[0], st), n))
        if f == "pow" and len(args) > 1:
            return binop(I, "Pow", args[0], args[1], n, st)
        if f == "fsum" and args:
            return reduce_builtin(I, "sum", args, {}, n, st)
        if f in ("isclose",):
            t = close_to(I, args, kwargs, st, ("rel_tol", "abs_tol"), (1e-9, 0))
            return Sc(Cell(alltags(I, args, kwargs, st), dt="bool", term=t))
        return sc(alltags(I, args, kwargs, st), dt="num")
    if name.startswith("pathlib.") or name.startswith("os.path."):
        return path_call(I, name, args, kwargs, n, st)
    if name in ("os.fspath", "importlib.resources.files", "importlib_resources.files") and args:
        p = path_text(args[0], st)
        if name == "os.fspath":
            return sc(alltags(I, args, kwargs, st), dt="str") if p is None else k(p)
        return new_path(I, None if p is None else os.path.join(os.path.abspath(I.prog.root), p.replace(".", "/")), EMPTY, n, st)
    if name.startswith("collections."):
        f = name.split(".")[-1]
        if f == "OrderedDict":
            return py.builtin(I, "dict", args, kwargs, n, st)
        if f == "defaultdict":
            return I.new(st, Dct(rest=TOP), n)
        return I.opaque(args, kwargs, st)
    if name.startswith("operator."):
        f = name[9:]
        m = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow"}.get(f)
        if m and len(args) == 2:
            return binop(I, m, args[0], args[1], n, st)
        if f == "itemgetter":
            return PartV(LibV("%itemgetter"), tuple(args), ())
        if f == "attrgetter":
            return PartV(LibV("%attrgetter"), tuple(args), ())
    if name == "%itemgetter" and len(args) == 2:
        return I.getitem(args[1], args[0], n, st)
    I.unmodelled[name] = I.unmodelled.get(name, 0) + 1
    return I.opaque(args, kwargs, st)


def copy_value(I, v, deep, n, st):
    o = asobj(I, v, st)
    if o is None:
        return v
    c = o.clone()
    c.owner, c.base, c.site = EMPTY, None, None
    if isinstance(o, Frame) and o.cls is None:
        pass
    if deep and isinstance(c, Seq):
        c.segs = [(copy_value(I, x, True, n, st) if isinstance(x, Ref) else x, m) for x, m in c.segs]
    if deep and isinstance(c, Dct):
        c.items = {a: (copy_value(I, x, True, n, st) if isinstance(x, Ref) else x) for a, x in c.items.items()}
    if deep and isinstance(c, (Inst, Frame)):
        c.attrs = {a: (copy_value(I, x, True, n, st) if isinstance(x, Ref) and x.oid != v.oid else x) for a, x in c.attrs.items()}
    r = I.new(st, c, n)
    return Ref(r.oid, v.tags) if isinstance(v, Ref) else r


def frozen(I, dist, args, kwargs, n, st):
    t = alltags(I, args, kwargs, st)
    loc = as_cell(I, kwargs["loc"], st) if "loc" in kwargs else None
    scale = as_cell(I, kwargs["scale"], st) if "scale" in kwargs else None
    if dist in ("norm", "uniform", "expon", "logistic", "laplace"):
        if loc is None and args:
            loc = as_cell(I, args[0], st)
        if scale is None and len(args) > 1:
            scale = as_cell(I, args[1], st)
        shape = None
    else:
        shape = as_cell(I, kwargs["s"], st) if "s" in kwargs else as_cell(I, args[0], st) if args else as_cell(I, kwargs["a"], st) if "a" in kwargs else None
        if loc is None and len(args) > 1:
            loc = as_cell(I, args[1], st)
        if scale is None and len(args) > 2:
            scale = as_cell(I, args[2], st)
    if shape is not None and isP(shape.dim) and shape.dim != D0:
        I.event("dim", n, "shape parameter of %s has dimension %s" % (dist, dim_show(shape.dim)))
    d = None
    ds = [x.dim for x in (loc, scale) if x is not None]
    if ds and all(x is not None for x in ds):
        d = Z
        for x in ds:
            x = dim_norm(x) if x != Z else x
            if x == Z:
                continue
            if d == Z:
                d = x
            elif d != x:
                I.event("dim", n, "location and scale of %s have different dimensions (%s, %s)" % (dist, dim_show(d), dim_show(x)))
                d = None
                break
    elif scale is not None and scale.dim is not None and loc is None:
        d = dim_norm(scale.dim)
    return Sc(Cell(t, const=RVC(dist, loc, scale, shape, d), dt="rv"))


def close_to(I, args, kwargs, st, names=("rtol", "atol"), defaults=(1e-5, 1e-8)):
    """term of: two numbers differ by at most a tolerance"""
    if not miss.TST[0] or len(args) < 2 or not all(isinstance(a, Sc) for a in args[:2]) or set(kwargs) - set(names) or len(args) > 4 or len(args) > 2 and names[0] != "rtol":
        return None
    tol = [constof(argget(args, kwargs, j + 2, x) if names[0] == "rtol" else kwargs.get(x)) if x in kwargs or names[0] == "rtol" and len(args) > j + 2 else defaults[j]
           for j, x in enumerate(names)]
    if not all(isinstance(x, (int, float)) for x in tol):
        return None
    return T.atom("near", miss.term_of(args[0].cell), miss.term_of(args[1].cell), *map(float, tol))


def scipy_call(I, name, args, kwargs, n, st):
    tags = alltags(I, args, kwargs, st)
    if name.startswith("stats."):
        f = name[6:]
        parts = f.split(".")
        if len(parts) == 2 and parts[1] in ("ppf", "cdf", "pdf", "rvs", "sf", "isf", "fit", "mean", "std", "interval", "logpdf"):
            if parts[1] == "rvs":
                rs = kwargs.get("random_state")
                rng_use(I, rs if rs is not None else NONE, "scipy.stats", n, st, implicit=rs is None)
                return I.new(st, Arr(cell=Cell(tags | rng_tags(I, rs, st))), n)
            first = args[0] if args else TOP
            if parts[1] in ("cdf", "sf"):
                return lift(I, [first], lambda c: Cell(c.tags | tags, D0, dt="num", term=T.atom(f, c.term) if len(args) == 1 and not kwargs else None), n, st)
            d = kwargs.get("scale")
            dd = as_cell(I, d, st).dim if d is not None else D0
            return lift(I, [first], lambda c: Cell(c.tags | tags, dd, dt="num", term=T.atom(f, c.term) if len(args) == 1 and not kwargs else None), n, st)
        if f in ("norm", "lognorm", "gamma", "t", "uniform", "expon", "beta", "chi2", "poisson", "logistic", "weibull_min"):
            return frozen(I, f, args, kwargs, n, st)
        if f in ("gmean", "hmean", "tmean", "trim_mean", "sem", "iqr", "median_abs_deviation", "pmean") and args:
            c = as_cell(I, args[0], st)
            if "amt" in c.tags and "sel" not in c.tags:
                tags = tags | {"unweighted"}
            return Sc(Cell(tags, dim_norm(c.dim) if c.dim not in (None,) else None, dt="num",
                           rep=c.rep, term=(T.atom("GMEAN", c.term, rows_tok(asobj(I, args[0], st)) or "values") if miss.AVG[0] and f == "gmean" and len(args) == 1 and not kwargs
                                            else T.atom(f, c.term)) if c.term is not None else None))
        if f in ("skew", "kurtosis", "variation", "pearsonr", "spearmanr", "kstest", "shapiro", "normaltest", "rankdata", "zscore"):
            check_sig(I, I.api["modules"]["scipy.stats"].get(f), "scipy.stats." + f, args, kwargs, n, st)
            if f in ("zscore", "rankdata"):
                return lift(I, [args[0]], lambda c: Cell(c.tags, D0, dt="num"), n, st)
            return Sc(Cell(tags, D0, dt="num"))
        if f == "mode" and args:
            c = as_cell(I, args[0], st)
            return I.new(st, Opq(typ="moderesult", cell=c.w(const=NOC).tag(tags)), n)
    if name == "optimize.root":
        g = None
        if args:
            try:
                g = I.call(args[0], [Sc(Cell(dim=D0, dt="num", term=T.atom("x")))], {}, n, st) if miss.TST[0] else I.call(args[0], [args[1] if len(args) > 1 else TOP], {}, n, st)
            except Dead_():
                pass
        for a in args[:1]:
            if isinstance(a, PartV):
                for kk, v in a.kwargs:
                    tags |= I.tags_of(v, st)
                for v in a.args:
                    tags |= I.tags_of(v, st)
        g = g.cell.term if isinstance(g, Sc) and miss.TST[0] and "jac" not in kwargs and "args" not in kwargs else None
        return I.new(st, Opq(typ="optresult", cell=Cell(tags, D0, term=T.atom("root", g))), n)
    if name.startswith("special."):
        return lift(I, list(args), lambda *cs: Cell(frozenset().union(*[c.tags for c in cs]), D0, dt="num", term=miss.func(name[8:], cs) if not kwargs else None), n, st) if args else TOP
    I.unmodelled["scipy." + name] = I.unmodelled.get("scipy." + name, 0) + 1
    return I.opaque(args, kwargs, st)


# ---- random generators ------------------------------------------------------
def rng_tags(I, v, st):
    if v is None:
        return frozenset(["rng:global"])
    return I.tags_of(v, st)


def seed_src(I, v, st):
    """classification of the seed of a generator"""
    if v is None or v == NONE:
        return "entropy"
    t = I.tags_of(v, st)
    if isinstance(v, Un) and NONE in v.atoms:
        return "maybe-entropy"
    if any(str(x).startswith("p:random_state") for x in t):
        return "param"
    if any(str(x).startswith("rng:entropy") for x in t):
        return "entropy"
    if isinstance(v, Sc) and v.cell.const is not NOC:
        return "const"
    return "derived"


def make_rng(I, kind, args, kwargs, n, st):
    v = argget(args, kwargs, 0, "seed")
    o = asobj(I, v, st) if v is not None else None
    if isinstance(o, Rng):
        return v
    src = seed_src(I, v, st)
    t = (I.tags_of(v, st) if v is not None else EMPTY) | frozenset(["rng:" + src])
    r = Rng(src=src)
    r.cell = Cell(t)
    return I.new(st, r, n)


def rng_use(I, v, what, n, st, implicit=False):
    if v is None or v == NONE:
        I.event("rng-global", n, "draws from the process-wide random state (%s)" % what)


def draw(I, ref, name, args, kwargs, n, st):
    o = st.heap[ref.oid]
    tags = alltags(I, args, kwargs, st) | o.cell.tags | ref.tags
    I.event("draw", n, "draws %s from a generator seeded by %s" % (name, o.src), src=o.src, owner=o.owner, dist=name, site=o.site,
            oid=ref.oid, tags=o.cell.tags | ref.tags, **({"terms": [as_cell(I, a, st).term for a in args], "named": {a: as_cell(I, b, st).term for a, b in kwargs.items()}}
                                                         if miss.FORM[0] else {}))
    cs = [as_cell(I, a, st) for a in args]
    kc = {a: as_cell(I, b, st) for a, b in kwargs.items()}
    d = None
    size = kwargs.get("size")
    shape_src = None

    def dim_of(c):
        return dim_norm(c.dim) if c is not None and c.dim is not None else None
    if name in ("normal", "uniform", "laplace", "logistic"):
        loc = cs[0] if cs else kc.get("loc", kc.get("low"))
        scale = cs[1] if len(cs) > 1 else kc.get("scale", kc.get("high"))
        ds = [x for x in (dim_of(loc) if loc is not None else Z, dim_of(scale) if scale is not None else D0)]
        if None not in ds:
            ds = [x for x in ds if x != Z]
            if len(set(ds)) == 1:
                d = ds[0]
            elif ds:
                I.event("dim", n, "location and scale of %s have different dimensions" % name)
    elif name == "gamma":
        shp = cs[0] if cs else kc.get("shape")
        scale = cs[1] if len(cs) > 1 else kc.get("scale")
        if shp is not None and isP(shp.dim) and shp.dim != D0:
            I.event("dim", n, "shape parameter of gamma has dimension %s" % dim_show(shp.dim))
        d = dim_of(scale) if scale is not None else D0
    elif name in ("choice", "permutation"):
        d = cs[0].dim if cs else None
    elif name in ("rand", "random", "random_sample", "randn", "standard_normal", "standard_gamma"):
        d = D0
    elif name in ("poisson", "binomial", "negative_binomial"):
        for c in cs:
            if isP(c.dim) and c.dim != D0:
                I.event("dim", n, "%s of an amount is not unit free" % name)
    if name == "shuffle":
        if args:
            I.mutate(args[0], n, st, "shuffle")
        return NONE
    tags = tags | frozenset(["simv"])
    big = [a for a in list(args) + list(kwargs.values()) if isinstance(asobj(I, a, st), (Arr, Ser)) and name != "choice"]
    if big and size is None and len(args) < 3:
        def f(*c):
            form = c[0].rep if name == "gamma" and c[0].rep in ("I", "C") else None
            return Cell(tags | frozenset().union(*[x.tags for x in c]), d, rep=form, dt="num")
        return lift(I, big, f, n, st)
    if size is None and not big and name != "choice" and len(args) < 3:
        return Sc(Cell(tags, d, dt="num"))
    return I.new(st, Arr(cell=Cell(tags, d, dt="num")), n)


# ---- numpy ----------------------------------------------------------------------
def np_call(I, f, args, kwargs, n, st):
    api = I.api["modules"]["numpy"]
    if f in api and f not in UFUNC1 and f not in UFUNC2:
        check_sig(I, api.get(f), "numpy." + f, args, kwargs, n, st)
    tags = alltags(I, args, kwargs, st)
    a0 = args[0] if args else None
    if "out" in kwargs and isinstance(kwargs["out"], Ref):
        I.mutate(kwargs["out"], n, st, "out= of numpy." + f)
    if f in ("random.RandomState", "random.mtrand.RandomState", "random.default_rng", "random.Generator", "random.SeedSequence", "random.PCG64", "random.MT19937"):
        if f == "random.default_rng" and isinstance(asobj(I, argget(args, kwargs, 0, "seed"), st) if args or kwargs else None, Rng):
            return argget(args, kwargs, 0, "seed")
        return make_rng(I, f, args, kwargs, n, st)
    if f.startswith("random."):
        m = f[7:]
        if m in DRAWS or m in ("get_state",):
            if m != "get_state":
                I.event("rng-global", n, "draws from the process-wide random state (numpy.random.%s)" % m)
            if m == "shuffle" and args:
                I.mutate(args[0], n, st, "shuffle")
            return I.new(st, Arr(cell=Cell(tags | {"rng:global", "simv"}, dt="num")), n)
        if m == "mtrand._rand":
            return TOP
        return Top(tags | {"rng:global"})
    if f in UFUNC1 and args:
        return lift(I, [a0], lambda c: cell_unary(I, f, c, n), n, st)
    if f.endswith(".reduce") and f.split(".")[0] in ("logical_and", "logical_or", "add", "multiply", "maximum", "minimum"):
        return Top(tags)
    if f in UFUNC2 and len(args) >= 2:
        return binop(I, UFUNC2[f], args[0], args[1], n, st)
    if f in CMP2 and len(args) >= 2:
        return compare(I, CMP2[f], args[0], args[1], n, st)
    if f in ("maximum", "minimum", "fmax", "fmin") and len(args) >= 2:
        return lift(I, args[:2], lambda x, y: minmax_cell(I, f, x, y, n), n, st)
    if f in REDS and args:
        return np_reduce(I, f, args, kwargs, n, st)
    if f in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "fromiter", "asfarray"):
        o = asobj(I, a0, st)
        if isinstance(a0, Un):
            return I.per_atom(a0, lambda a, s: np_call(I, f, [a] + list(args[1:]), kwargs, n, s), st)
        dt = argget(args, kwargs, 1, "dtype")
        castnm = (dt.name.split(".")[-1] if isinstance(dt, LibV) else constof(dt)) if dt is not None and f != "atleast_1d" else None
        if isinstance(castnm, type(None)) or not isinstance(castnm, str):
            castnm = None
        alias = f != "array" or (constof(kwargs.get("copy", TRUE)) is False)
        if isinstance(o, Arr) and alias and castnm is None:
            return a0
        if isinstance(a0, Sc):
            c = cast_cell(I, a0.cell, castnm, n) if castnm else a0.cell
            if f == "atleast_1d":
                return I.new(st, Arr(cell=c, exact=(c,)), n)
            return I.new(st, Arr(cell=c, exact=(c,), nd=0), n) if c.const is not NOC else Sc(c)
        if isinstance(o, Opq) and o.typ == "object" or o is None:
            return I.new(st, Arr(cell=Cell(tags)), n)
        g = to_arr(I, a0, st).clone()
        g.owner, g.base, g.site = EMPTY, None, None
        if castnm:
            g.cell = cast_cell(I, g.cell, castnm, n)
            if g.exact:
                g.exact = tuple(cast_cell(I, c, castnm, n) for c in g.exact)
        if alias and isinstance(o, (Ser, Frame, Arr)):
            g.base = a0.oid      # dtype may already match: the result may share memory
        if isinstance(o, Dct):
            g.cell = Cell(tags)
        return I.new(st, g, n)
    if f == "nan_to_num" and args:
        return lift(I, [a0], lambda c: miss.filled(cell_join(c, const_cell(0)), c, const_cell(0)) if c.const is NOC else c, n, st)
    if f == "where":
        if len(args) == 1:
            w = miss.truthy(as_cell(I, a0, st)) if miss.AVG[0] else None
            return I.seq(st, [I.new(st, Arr(cell=Cell(tags, lab="pos", dt="pyint", dim=D0, term=T.atom("where", w) if w is not None else None)), n)], node=n)
        if len(args) == 3:
            return lift(I, args, lambda c, x, y: sel_cell(I, c, x, y, n), n, st)
    if f == "select" and len(args) >= 2:
        conds = [v for v, _ in iterate(I, args[0], n, st)[0]]
        vals = [v for v, _ in iterate(I, args[1], n, st)[0]]
        dflt = argget(args, kwargs, 2, "default") or k(0)
        r = dflt
        for c, v in reversed(list(zip(conds, vals))):
            r = lift(I, [c, v, r], lambda c_, x, y: sel_cell(I, c_, x, y, n), n, st)
        return r
    if f in ("clip",) and args:
        lo, hi = argget(args, kwargs, 1, "a_min"), argget(args, kwargs, 2, "a_max")
        return clip_val(I, a0, lo, hi, n, st)
    if f in ("sort", "unique") and args:
        g = to_arr(I, a0, st).clone()
        g.owner, g.base, g.site = EMPTY, None, None
        if g.exact is not None and all(isinstance(c.const, (int, float, str)) for c in g.exact):
            cs = sorted(g.exact, key=lambda c: c.const)
            if f == "unique":
                o2 = []
                for c in cs:
                    if not o2 or o2[-1].const != c.const:
                        o2.append(c)
                cs = o2
            g.exact = tuple(cs)
        elif g.exact is not None and len(g.exact) > 1:
            g.exact = None
        if g.exact is None:
            if f == "sort" and g.order is not None and I.sorted_orders.get(g.order):
                pass
            else:
                g.order = I.order_tok(g.order, "sort") if g.order is not None else None
                if g.order is not None:
                    I.sorted_orders[g.order] = True
                g.cell = retoken(I, g.cell, g.order)
        g.ro = EMPTY
        g.ix = None
        if miss.AVG[0] and f == "sort" and g.nd == 1 and g.exact is None and not kwargs:
            t = to_arr(I, a0, st).cell.term
            g.cell = g.cell.w(term=T.atom("sorted", t) if t is not None and not T.is_num(t) else t)
        if any(kk in kwargs for kk in ("return_index", "return_inverse", "return_counts")):
            r = I.new(st, g, n)
            return I.seq(st, [r] + [I.new(st, Arr(cell=Cell(tags, lab="pos", dt="pyint")), n) for kk in ("return_index", "return_inverse", "return_counts") if kk in kwargs], node=n)
        return I.new(st, g, n)
    if f in ("append", "concatenate", "hstack", "vstack", "stack", "r_"):
        vals = list(args[:2]) if f == "append" else [v for v, _ in iterate(I, a0, n, st)[0]] if args else []
        ex = []
        c = None
        for v in vals:
            I.opt_stored(v, n)
            if isinstance(v, Sc):
                ex = ex + [v.cell] if ex is not None else None
                y = v.cell
            else:
                ar = to_arr(I, v, st)
                y = ar.cell
                ex = ex + list(ar.exact) if ex is not None and ar.exact is not None else None
            c = y if c is None else cell_join(c, y)
        g = Arr(cell=c or UNK, exact=tuple(ex) if ex is not None and len(ex) <= 24 else None)
        if g.exact is None:
            ords = []
            for v in vals:
                ords.append(I.order_of(v, st))
            g.order = I.order_tok("concat", *ords) if all(x is not None for x in ords) and ords else None
            if g.order is not None:
                g.cell = g.cell.w(term=T.atom("el", g.order)) if g.cell.dim is not None or True else g.cell
        return I.new(st, g, n)
    if f in ("zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like"):
        if f.startswith("full"):
            c = as_cell(I, args[1], st) if len(args) > 1 else as_cell(I, kwargs.get("fill_value", TOP), st)
        else:
            c = const_cell(0.0 if not f.startswith("one") else 1.0) if not f.startswith("empty") else UNK
        sh = asobj(I, a0, st)
        if miss.AVG[0] and c.const == 1 and (f == "ones_like" and isinstance(sh, (Ser, Arr)) or f in ("ones", "full") and isinstance(a0, Sc)):
            t = a0.cell.term if isinstance(a0, Sc) else miss.count(to_arr(I, a0, st).cell.term)
            c = Cell(c.tags, D0, dt="num", term=T.atom("ones", t) if t is not None else None)
        return I.new(st, Arr(cell=c.w(const=c.const), nd=2 if isinstance(sh, Seq) and len(sh.segs) > 1 or isinstance(sh, Frame) else 1), n)
    if f in ("arange", "linspace", "logspace"):
        for a in args[:3]:
            if isinstance(a, Sc) and a.cell.lab in ("O", "D") and f == "arange" and len(args) == 1:
                I.event("label-pos", n, "an %s label is used as a count" % lab_name(a.cell.lab))
            elif isinstance(a, Sc) and a.cell.lab in ("Ostep", "Dstep") and f == "arange" and len(args) == 1:
                I.event("label-pos", n, "a difference of %s labels is used as a count" % lab_name(a.cell.lab[0]))
        cs = [constof(a) for a in args]
        if f == "arange" and cs and all(isinstance(c, int) for c in cs) and len(range(*cs)) <= 24:
            ex = tuple(const_cell(x) for x in range(*cs))
            c = ex[0] if ex else UNK
            for x in ex[1:]:
                c = cell_join(c, x)
            return I.new(st, Arr(cell=c, exact=ex), n)
        d = None
        if f == "linspace" and len(args) > 1:
            x, y = as_cell(I, args[0], st), as_cell(I, args[1], st)
            d = dim_join(x.dim, y.dim)
            return I.new(st, Arr(cell=Cell(tags, dim_norm(d) if d not in (None, Z) else d, dt="num")), n)
        labs = [a.cell.lab for a in args if isinstance(a, Sc)]
        return I.new(st, Arr(cell=Cell(tags, D0, lab="pos" if f == "arange" and not any(l in ("O", "D") for l in labs) else (labs[0] if labs else None), dt="pyint",
                                 term=miss.number_range(args) if f == "arange" and miss.AVG[0] and not kwargs else None)), n)
    if f in ("cumsum", "cumprod", "nancumsum", "nancumprod") and args:
        def cum(c):
            r = cum_cell(I, "cumsum" if "sum" in f else "cumprod", c, n, st, asobj(I, a0, st))
            return r.tag({miss.GAP}) if miss.has(c) and f == "cumsum" and isinstance(asobj(I, a0, st), Arr) else r
        return lift(I, [a0], cum, n, st)
    if f in ("diff", "ediff1d") and args:
        def df_(c):
            return Cell(c.tags, c.dim, (c.lab + "step") if c.lab in ("O", "D") else None, None, None, NOC, "num")
        g = to_arr(I, a0, st)
        xt = ro_taint(g.ro)
        return I.new(st, Arr(cell=df_(g.cell).tag(xt)), n)
    if f in ("divmod",) and len(args) == 2:
        return I.seq(st, [binop(I, "FloorDiv", args[0], args[1], n, st), binop(I, "Mod", args[0], args[1], n, st)], node=n)
    if f in ("percentile", "quantile", "nanpercentile", "nanquantile") and len(args) >= 1:
        q = argget(args, kwargs, 1, "q")
        c, qc = as_cell(I, a0, st), as_cell(I, q, st) if q is not None else UNK
        m = argget([], kwargs, 0, "method", "interpolation")
        mt = I.tags_of(m, st) if m is not None else EMPTY
        qt = qc.term
        if qt is not None and f.endswith("quantile"):
            qt = T.mul(T.const(100), qt)
        t = T.atom("PCT", c.term or T.atom("anon"), qt) if qt is not None else None
        I.event("quantile", n, "%s with method %s" % (f, "given" if m is not None else "default"), method=m, tags=mt)
        cell = Cell(c.tags | qc.tags | mt | ({"xsim"} if "simv" in c.tags else EMPTY), dim_norm(c.dim) if c.dim not in (None,) else None, None, None, t, NOC, "num")
        if isinstance(asobj(I, q, st), (Arr, Seq)) and q is not None:
            return I.new(st, Arr(cell=cell, order=I.order_of(q, st)), n)
        return Sc(cell)
    if f in ("tile", "repeat", "ravel", "reshape", "roll", "flip", "flipud", "fliplr", "transpose", "squeeze", "copy", "expand_dims", "rot90",
             "trim_zeros", "delete", "take", "compress", "broadcast_to", "resize", "insert", "triu", "tril") and args:
        o = asobj(I, a0, st)
        rt = I.tags_of(args[1], st) if f in ("tile", "repeat") and len(args) > 1 else EMPTY
        if f in ("tile", "repeat"):
            for kk in ("reps", "repeats"):
                if kk in kwargs:
                    rt = rt | I.tags_of(kwargs[kk], st)
        if f in ("tile", "repeat") and isinstance(o, Frame):
            g = frame_arr(I, o, f)
            ax = constof(kwargs.get("axis", args[2] if len(args) > 2 else NONE))
            g.lay = f if f == "tile" or ax == 0 else None
            g.cell = g.cell.tag(rt)
            g.special = {kk: c.tag(rt) for kk, c in g.special.items()}
            return I.new(st, g, n)
        g = to_arr(I, a0, st).clone()
        g.owner, g.site = EMPTY, None
        if rt:
            g.cell = g.cell.tag(rt)
        if f in ("tile", "repeat"):
            g.exact = None
            cnt = kwargs.get("reps", kwargs.get("repeats", args[1] if len(args) > 1 else NONE))
            many = [x for x, _ in cnt_o.segs] if isinstance((cnt_o := asobj(I, cnt, st)), Seq) else [cnt]
            if "simv" in g.cell.tags and any(isinstance(x, Sc) and x.cell.term is not None and T.leaves(x.cell.term, ("sims",)) for x in many):
                g.cell = g.cell.tag({"xsim"})       # drawn once, then copied for every simulation
            if g.nd == 2 and (f == "tile" or constof(kwargs.get("axis", args[2] if len(args) > 2 else NONE)) == 0):
                g.lay = f
            elif g.nd == 1 and g.cell.lab == "pos":
                cnt = kwargs.get("reps", kwargs.get("repeats", args[1] if len(args) > 1 else NONE))
                cnt = as_cell(I, cnt, st).term if isinstance(cnt, Sc) else None
                g.cell = g.cell.w(term=T.atom("id" + f, cnt if cnt is not None else T.atom("anon")))
        g.base = a0.oid if f in ("ravel", "reshape", "transpose", "squeeze", "flip", "expand_dims") and isinstance(a0, Ref) else None
        if f not in ("copy", "squeeze", "ravel"):
            g.exact = None if g.exact is None or f != "flip" else g.exact[::-1]
            if f in ("flip", "flipud"):
                g.cell = rev_cell(g.cell)
            g.order = I.order_tok(g.order, f, id(n)) if g.order is not None else None
            if f == "roll" and g.ix is not None:
                g.ix = None
            if f in ("roll", "resize") and g.cell is not None and "simv" in g.cell.tags:
                g.cell = g.cell.tag({"xsim"})       # values of one simulation in the place of another's
        if f in ("ravel", "reshape"):
            g.nd = 1 if f == "ravel" else 2
        return I.new(st, g, n)
    if f in ("isin", "in1d"):
        return lift(I, [a0], lambda c: Cell(c.tags | tags, dt="bool"), n, st)
    if f in ("nonzero", "argwhere", "flatnonzero", "argsort", "searchsorted", "digitize", "lexsort"):
        if f == "searchsorted":
            return Sc(Cell(tags, D0, "pos", dt="pyint"))
        r = I.new(st, Arr(cell=Cell(tags, D0, "pos", dt="pyint")), n)
        return I.seq(st, [r], node=n) if f == "nonzero" else r
    if f in ("allclose", "isclose", "array_equal", "isscalar", "may_share_memory", "shares_memory"):
        if f == "isscalar" and args:
            if isinstance(a0, Sc):
                return k(True) if a0.cell.const is not NOC and a0 != NONE or a0.cell.dt else sc(dt="bool")
            if isinstance(a0, Ref):
                return FALSE
            return sc(dt="bool")
        if f in ("allclose", "isclose") and len(args) >= 2:
            x, y = as_cell(I, args[0], st), as_cell(I, args[1], st)
            for u, w in ((x, y), (y, x)):
                if isP(u.dim) and u.dim != D0 and w.dim in (LIT, Z) and (w.dim == LIT or constof(argget(args, kwargs, 3, "atol") or k(1)) != 0):
                    I.event("dim", n, "an amount compared with a literal by numpy.%s" % f)
        t = close_to(I, args, kwargs, st) if f in ("allclose", "isclose") else None
        if t is not None:
            return Sc(Cell(tags, dt="bool", term=t))
        if f == "isclose":
            return lift(I, args[:2], lambda x, y: Cell(x.tags | y.tags, dt="bool"), n, st)
        return sc(tags, dt="bool")
    if f in ("size", "shape", "ndim", "count_nonzero", "alen"):
        if f == "size" and args:
            return Sc(Cell(tags, D0, dt="pyint"))
        return I.opaque(args, kwargs, st)
    if f in ("put", "place", "copyto", "fill_diagonal", "putmask") and args:
        I.mutate(a0, n, st, "numpy." + f)
        o = asobj(I, a0, st)
        if isinstance(o, Arr):
            m = st.mut(a0.oid)
            m.cell, m.exact = m.cell.w(term=None, const=NOC).tag(tags), None
        return NONE
    if f in ("average", "dot", "interp", "corrcoef", "cov", "inner", "outer", "histogram", "polyfit", "gradient"):
        if f == "average" and args:
            c = as_cell(I, a0, st)
            return Sc(Cell(tags, c.dim, dt="num"))
        if f == "dot" and len(args) > 1:
            return Sc(red_cell(I, "sum", cell_binop(I, "Mult", as_cell(I, args[0], st), as_cell(I, args[1], st), n), n))
        return I.new(st, Arr(cell=Cell(tags)), n)
    if f in ("errstate", "printoptions"):
        return I.new(st, Opq(typ="errstate"), n)
    if f in ("int64", "int32", "float64", "float32", "int_", "float_", "bool_", "str_", "intp") and args:
        return cast_scalar(I, a0, LibV("numpy." + f.rstrip("_")), n, st)
    if f == "vectorize" and args:
        return PartV(LibV("%vectorized"), (a0,), ())
    if f in ("meshgrid", "indices", "triu_indices", "tril_indices", "unravel_index", "ix_"):
        return I.seq(st, [I.new(st, Arr(cell=Cell(tags, lab="pos")), n)] * 2, node=n)
    if f == "apply_along_axis":
        return I.opaque(args, kwargs, st)
    if f == "finfo" or f == "iinfo":
        return I.new(st, Opq(typ="finfo"), n)
    I.unmodelled["numpy." + f] = I.unmodelled.get("numpy." + f, 0) + 1
    return I.opaque(args, kwargs, st)


def retoken(I, c, order):
    """element term of a re-ordered array"""
    if order is None:
        return c.w(term=None, const=NOC)
    return c.w(term=T.atom("el", order), const=NOC)


def frame_arr(I, f, how):
    """2-d array of a frame, remembering its columns"""
    c = None
    for x in f.cells():
        c = x if c is None else cell_join(c, x)
    g = Arr(cell=c or UNK, nd=2)
    g.special = {("col", kk): v.cell for kk, v in f.cols.items()} if f.rest is None and not f.open else {}
    return g


def ro_taint(ro):
    t = set()
    if "ord" in ro:
        t.add("roworder")
    if "dup" in ro:
        t.add("rowdup")
    return frozenset(t)


def cum_cell(I, name, c, n, st, obj=None, along=None):
    t = None
    if name == "cumsum":
        rep = None
        if c.rep == "I" and along in ("D", None):
            rep = "C" if along == "D" else None
        elif c.rep == "C" and along == "D":
            rep = "CC"
        return Cell(c.tags, dim_norm(c.dim) if c.dim not in (None, Z) else c.dim, None, rep, None, NOC, "num")
    if c.term is not None:
        one = T.single(c.term)
        if one and one[0] == "REV":
            t = T.atom("REV", T.atom("CUMBACK", one[1]))
        elif isinstance(obj, (Ser, Frame)) and "rev" in obj.ro:
            t = T.atom("CUMBACK", c.term)
        else:
            t = T.atom("CUMPROD", c.term)
    d = D0 if c.dim in (D0, LIT, Z) else None
    if isP(c.dim) and c.dim != D0:
        I.event("dim", n, "running product of %s" % dim_show(c.dim))
    return Cell(c.tags, d, None, None, t, NOC, "num")


def minmax_cell(I, f, x, y, n):
    for u, w in ((x, y), (y, x)):
        if isP(u.dim) and u.dim != D0 and w.dim == LIT:
            I.event("dim", n, "an amount is bounded by the literal %r" % (w.const,))
        if u.dim is not None and u.dim[0] == "LOG" and isinstance(w.const, (int, float)) and abs(w.const) != float("inf"):
            I.event("dim", n, "the logarithm of an amount is bounded by %r" % (w.const,))
    if isP(x.dim) and isP(y.dim) and dim_norm(x.dim) != dim_norm(y.dim):
        I.event("dim", n, "%s of %s and %s" % (f, dim_show(x.dim), dim_show(y.dim)))
    c = cell_join(x, y)
    if isinstance(x.const, (int, float)) and isinstance(y.const, (int, float)):
        return const_cell((max if "max" in f else min)(x.const, y.const), c.tags)
    ts = [x.term, y.term]
    return c.w(term=T.atom("max" if "max" in f else "min", *ts) if None not in ts and ts[0] != ts[1] else (ts[0] if None not in ts else None), const=NOC)


def clip_val(I, v, lo, hi, n, st):
    r = v
    if lo is not None and lo != NONE:
        r = lift(I, [r, lo], lambda x, y: minmax_cell(I, "max", x, y, n), n, st)
    if hi is not None and hi != NONE:
        r = lift(I, [r, hi], lambda x, y: minmax_cell(I, "min", x, y, n), n, st)
    return r


def sel_cell(I, c, x, y, n):
    return miss.less(sel_cell_(I, c, x, y, n), miss.CARRY)


def sel_cell_(I, c, x, y, n):
    """selection between two cells"""
    if c.const is True:
        return x
    if c.const is False:
        return y
    t = None
    if x.term is not None and x.term == y.term:
        t = x.term
    r = cell_join(x, y)
    rep = r.rep
    if {x.rep, y.rep} == {"DIFFC", "C"}:
        rep = "I"
    elif {x.rep, y.rep} == {"C", "I"}:
        rep = None
        if "texttest" in c.tags:
            # (by development period it would be fine: the first cumulative amount is the first increment)
            I.event("rep", n, "incremental and cumulative amounts are put side by side in one column")
    lab = r.lab
    if x.lab and y.const is not NOC and isinstance(y.const, (int, float)):
        lab = x.lab if y.const != y.const else None
    if y.lab and x.const is not NOC and isinstance(x.const, (int, float)):
        lab = y.lab if x.const != x.const else None
    r = r.w(tags=r.tags | c.tags, term=t, rep=rep, lab=lab, dt=r.dt or ("num" if "num" in (x.dt, y.dt) else None))
    if not miss.ON[0]:
        return r
    if t is None and None not in (c.term, x.term or miss.nanterm(x), y.term or miss.nanterm(y)):
        r = r.w(term=T.atom("ite", c.term, x.term or miss.nanterm(x), y.term or miss.nanterm(y)))
    return miss.select(r, c, x, y)


def np_reduce(I, f, args, kwargs, n, st):
    v = args[0]
    axis = argget(args, kwargs, 1, "axis")
    o = asobj(I, v, st)
    if isinstance(v, Un):
        return I.per_atom(v, lambda a, s: np_reduce(I, f, [a] + list(args[1:]), kwargs, n, s), st)
    if isinstance(o, (Frame, Ser)) and f in ("sum", "mean", "median", "max", "min", "std", "var", "prod", "any", "all"):
        if isinstance(o, Frame) and f == "median":
            return Sc(red_cell(I, f, as_cell(I, v, st), n))
        kw = {}
        if axis is not None:
            kw["axis"] = axis
        return I.pd.method(I, MethV(v, f), [], kw, n, st)
    if isinstance(o, Arr) and o.exact is not None and f in ("any", "all", "max", "min", "sum", "amax", "amin") and o.exact:
        cs = [c.const for c in o.exact]
        t = EMPTY
        for c in o.exact:
            t |= c.tags
        if f in ("any", "all"):
            if f == "any" and any(c is True for c in cs):
                return Sc(Cell(t, const=True, dt="bool"))
            if f == "all" and any(c is False for c in cs):
                return Sc(Cell(t, const=False, dt="bool"))
            if all(isinstance(c, bool) for c in cs):
                return Sc(Cell(t, const=(any(cs) if f == "any" else all(cs)), dt="bool"))
            return Sc(Cell(t, dt="bool"))
        if all(isinstance(c, (int, float)) for c in cs):
            return k({"max": max, "amax": max, "min": min, "amin": min, "sum": sum}[f](cs), t)
    if isinstance(o, Seq):
        if o.exact() and f in ("min", "max", "amin", "amax"):
            return reduce_builtin(I, f[-3:], [v], {}, n, st)
    c = as_cell(I, v, st)
    r = red_cell(I, f, c, n, rows_tok(o) if o is not None else None)
    if isinstance(v, Sc):
        return Sc(c if f in ("sum", "mean", "max", "min", "median", "amax", "amin") else r)
    if isinstance(o, Arr) and o.nd == 2 and axis is not None:
        return I.new(st, Arr(cell=r), n)
    if miss.FORM[0] and isinstance(o, Arr) and r.term is None and c.term is not None and axis in (None, NONE) and not T.is_num(c.term):
        g = f[3:] if f.startswith("nan") else f
        if g == "sum" and o.nd == 2:
            r = r.w(term=T.linear("SUM", T.linear("SUM", c.term, "allO"), "allD"))
        elif g in ("sum", "mean", "std", "var", "median", "min", "max") and o.nd == 1:
            r = r.w(term=T.atom(g.upper(), c.term, "values"))
    return Sc(r)


# ======================================================================
# array methods
# ======================================================================
ARRVIEW = {"ravel", "reshape", "transpose", "view", "squeeze", "swapaxes"}


def arr_attr(I, ref, name, n, st):
    o = st.heap[ref.oid]
    if name not in I.api["classes"]["ndarray"] and not name.startswith("__"):
        I.fail("missing-attr", n, "numpy array has no attribute '%s'" % name, attr=name, st=st)
    if name in ("size",):
        if o.exact is not None:
            return k(len(o.exact))
        return Sc(Cell(o.cell.tags & frozenset(), D0, dt="pyint", term=miss.count(o.cell.term) or (T.atom("len", o.order) if o.order is not None else None)))
    if name == "shape":
        if o.exact is not None and o.nd == 1:
            return I.seq(st, [k(len(o.exact))], node=n)
        if miss.AVG[0] and o.nd == 1:
            return I.seq(st, [Sc(Cell(EMPTY, D0, dt="pyint", term=miss.count(o.cell.term)))], node=n)
        return I.seq(st, [sc(D0 and EMPTY, dim=D0, dt="pyint")] * max(o.nd, 1), node=n)
    if name == "ndim":
        return k(o.nd) if o.nd is not None else sc(dt="pyint")
    if name == "T":
        g = o.clone()
        g.base, g.owner, g.order = ref.oid, EMPTY, o.order if o.nd == 1 else None
        return I.new(st, g, n)
    if name in ("dtype", "flags", "itemsize", "nbytes"):
        return I.new(st, Opq(typ="dtype"), n)
    if name in ("real", "imag", "flat"):
        return ref
    return MethV(ref, name)


def arr_method(I, ref, name, args, kwargs, n, st):
    o = st.heap[ref.oid]
    tags = alltags(I, args, kwargs, st)
    if name in REDS or name in ("max", "min"):
        return np_reduce(I, name, [ref] + list(args), {a: b for a, b in kwargs.items()}, n, st)
    if name in ("copy", "flatten", "astype"):
        g = o.clone()
        g.base, g.owner, g.site = None, EMPTY, None
        if name == "astype" and args:
            nm = args[0].name.split(".")[-1] if isinstance(args[0], LibV) else constof(args[0])
            g.cell = cast_cell(I, g.cell, nm, n)
            if g.exact:
                g.exact = tuple(cast_cell(I, c, nm, n) for c in g.exact)
            g.special = {a: cast_cell(I, c, nm, n) for a, c in g.special.items()}
        if name == "flatten":
            g.nd = 1
        return I.new(st, g, n)
    if name in ARRVIEW:
        g = o.clone()
        g.base, g.owner, g.site = ref.oid, EMPTY, None
        if name == "ravel":
            g.nd = 1
            if o.nd == 2:
                g.order, g.exact = None, None
        elif name == "reshape":
            g.nd = 2 if len(args) > 1 or isinstance(asobj(I, args[0], st) if args else None, Seq) else 1
        return I.new(st, g, n)
    if name in ("tolist",):
        if o.exact is not None:
            return I.new(st, Seq(kind="list", segs=[(Sc(c), False) for c in o.exact], order=o.order), n)
        if o.nd == 0:
            return Sc(o.cell)
        if o.special and o.ix is not None and not any(isinstance(x, tuple) and x[:1] == ("col",) for x in o.special):
            return I.new(st, Seq(kind="list", segs=[(Sc(o.cell), True)] + [(Sc(c), False) for c in o.special.values()]), n)
        return I.new(st, Seq(kind="list", segs=[(Sc(o.cell), True)], order=o.order), n)
    if name == "item":
        return Sc(o.exact[0] if o.exact else o.cell)
    if name in ("cumsum", "cumprod"):
        gap = {miss.GAP} if miss.has(o.cell) and name == "cumsum" else EMPTY
        return I.new(st, Arr(cell=cum_cell(I, name, o.cell, n, st).tag(ro_taint(o.ro) | gap), ix=o.ix), n)
    if name in ("sort", "fill", "put", "itemset", "resize", "partition", "setfield", "byteswap"):
        I.mutate(ref, n, st, "array." + name)
        m = st.mut(ref.oid)
        if name == "sort":
            m.order = I.order_tok(m.order, "sort") if m.order is not None else None
            if m.exact is not None and all(isinstance(c.const, (int, float)) for c in m.exact):
                m.exact = tuple(sorted(m.exact, key=lambda c: c.const))
            else:
                m.exact = None
                m.cell = retoken(I, m.cell, m.order)
        else:
            c = as_cell(I, args[-1], st) if args else UNK
            m.cell = c if name == "fill" else cell_join(m.cell, c)
            m.exact = None
        return NONE
    if name == "round":
        return lift(I, [ref], lambda c: rounded(I, c, n, st), n, st)
    if name == "clip":
        return clip_val(I, ref, argget(args, kwargs, 0, "min"), argget(args, kwargs, 1, "max"), n, st)
    if name in ("nonzero", "argsort", "searchsorted"):
        r = I.new(st, Arr(cell=Cell(tags | o.cell.tags, D0, "pos", dt="pyint")), n)
        return I.seq(st, [r], node=n) if name == "nonzero" else (Sc(Cell(tags, D0, "pos", dt="pyint")) if name == "searchsorted" else r)
    if name in ("repeat", "take", "compress", "diagonal", "choose"):
        return I.new(st, Arr(cell=o.cell.tag(tags)), n)
    if name == "dot":
        return np_call(I, "dot", [ref] + list(args), kwargs, n, st)
    if name in ("isnull", "isna"):
        I.fail("missing-attr", n, "numpy array has no attribute '%s'" % name, st=st)
    return Top(tags | o.cell.tags)


def arr_getitem(I, ref, key, n, st):
    o = st.heap[ref.oid]
    ok = asobj(I, key, st)
    kt = I.tags_of(key, st)
    if isinstance(key, Sc):
        c = constof(key)
        if key.cell.lab in ("O", "D"):
            I.event("label-pos", n, "an %s label is used as an array position" % lab_name(key.cell.lab))
        if o.exact is not None and isinstance(c, int) and not isinstance(c, bool):
            if -len(o.exact) <= c < len(o.exact):
                return Sc(o.exact[c])
            I.fail("bad-index", n, "index %d is out of bounds for %d values" % (c, len(o.exact)), st=st)
        if c is None:
            return ref
        if o.nd == 2:
            return I.new(st, Arr(cell=(miss.at(o.cell, key, None, True) if miss.FORM[0] else o.cell).tag(kt), base=ref.oid), n)
        cell = o.cell.tag(kt)
        if miss.FORM[0]:
            cell = miss.ser_at(cell, key, True)
        if isinstance(c, int) and cell.const is NOC:
            t = T.single(cell.term)
        return Sc(cell)
    if isinstance(key, SliceV):
        lo, hi, step = (constof(x) for x in (key.lo, key.hi, key.step))
        g = o.clone()
        g.base, g.owner, g.site = ref.oid, EMPTY, None
        full = lo is None and hi is None
        if o.exact is not None and not any(x is NOC for x in (lo, hi, step)):
            g.exact = o.exact[slice(lo, hi, step)]
            c = None
            for x in g.exact:
                c = x if c is None else cell_join(c, x)
            g.cell = c or o.cell
        else:
            g.exact = None
        if g.order is not None and not full or step not in (None, 1):
            g.order = I.order_tok(g.order, "slice", repr((lo, hi, step))) if g.order is not None else None
        if not full:
            g.ix = slice_ix(g.ix, lo, hi) if g.ix is not None else None
            if g.ix is None:
                g.special = {kk: v for kk, v in g.special.items() if isinstance(kk, tuple)}
        if miss.FORM[0]:
            g.cell = miss.sliced(g.cell, key)
        if miss.FORM[0] and not (full and step in (None, 1, -1)):
            sel = miss.arr_slice(o.cell.term, miss.first_position(key.lo), miss.position(key.hi)) if miss.AVG[0] and o.nd == 1 and step in (None, 1) else None
            g.cell = miss.ser_at(g.cell, key, True) if o.nd == 1 else miss.at(g.cell, key, None, True)
            if sel is not None:
                g.cell = g.cell.w(term=sel)
        if step == -1 and o.nd == 1:
            g.cell = rev_cell(g.cell)
        g.cell = g.cell.tag(kt)
        return I.new(st, g, n)
    if isinstance(ok, Seq) and ok.kind == "tuple":
        parts = [x for x, _ in ok.segs]
        if len(parts) == 1:
            return arr_getitem(I, ref, parts[0], n, st)
        for p in parts:
            if isinstance(p, Sc) and p.cell.lab in ("O", "D"):
                I.event("label-pos", n, "an %s label is used as an array position" % lab_name(p.cell.lab))
        ac = o.cell
        if miss.FORM[0] and len(parts) == 2:
            ac = miss.at(ac, parts[0], parts[1], True)
        elif miss.FORM[0]:
            ac = ac.w(term=None)
        if any(isinstance(p, SliceV) for p in parts):
            return I.new(st, Arr(cell=ac.tag(kt), base=ref.oid, nd=1 if any(isinstance(p, Sc) for p in parts) else 2), n)
        return Sc(ac.tag(kt))
    if isinstance(ok, (Arr, Ser, Seq, Idx)):
        kc = as_cell(I, key, st)
        if kc.lab in ("O", "D") and kc.dt != "bool":
            I.event("label-pos", n, "%s labels are used as array positions" % lab_name(kc.lab))
        if o.exact is not None and isinstance(ok, Arr) and ok.exact is not None and len(ok.exact) == len(o.exact) and \
                all(isinstance(c.const, bool) for c in ok.exact):
            ex = tuple(c for c, m in zip(o.exact, ok.exact) if m.const)
            return I.new(st, Arr(cell=o.cell, exact=ex), n)
        g = Arr(cell=o.cell.tag(kt), nd=o.nd if kc.dt != "bool" or o.nd == 1 else 1, ro=o.ro)
        if miss.ON[0] and kc.dt == "bool":
            if miss.FORM[0]:
                I.event("selected", n, "values %s kept where %s" % (T.show(g.cell.term, 4)[:120], T.show(kc.term, 4)[:200]), term=g.cell.term, cond=miss.truthy(kc))
            g.cell = miss.filtered(g.cell, kc)
            if miss.AVG[0]:
                g.cell = g.cell.w(term=miss.narrow_arr(g.cell.term, "mask", miss.truthy(kc)))
        elif miss.AVG[0]:
            w = T.key_of(kc.term) if kc.term is not None else None
            g.cell = g.cell.w(term=miss.narrow_arr(g.cell.term, "mask", w[1]) if w and w[0] == "where" and o.nd == 1 else
                              miss.arr_slice(g.cell.term, *w[1:]) if w and w[0] == "range" and o.nd == 1 else None)
        if o.order is not None:
            g.order = I.order_tok(o.order, "mask", id(n))
        return I.new(st, g, n)
    return Top(I.tags_of(ref, st) | kt)


def rev_cell(c):
    """cell of the same values in opposite order"""
    if c.term is None or T.is_num(c.term):
        return c
    one = T.single(c.term)
    return c.w(term=one[1] if one and one[0] == "REV" else T.atom("REV", c.term))


def slice_ix(ix, lo, hi):
    """axis after a constant positional slice; None when it cannot be told"""
    if ix is None:
        return None
    sp = ix.special
    if (lo in (None, 0)) and isinstance(hi, int) and hi < 0 and sp:
        drop = -hi
        if drop < len(sp):
            return ix.w(special=sp[:hi])
        if drop == len(sp):
            return ix.w(special=())
        return None
    if lo in (None, 0) and hi is None:
        return ix
    if ix.cells and len(ix.cells) == 1 and ix.cells[0] is not None and not sp:
        return ix.w(cells=(ix.cells[0].w(rep="[%s:%s]" % (lo, hi) if not miss.FORM[0] or miss.unsliced(ix.cells[0]) else "?"),))
    if isinstance(lo, int) and lo > 0 and hi is None and ix.cells and ix.cells[0] is not None:
        return ix.w(cells=(ix.cells[0].w(rep="[%s:]" % lo),))
    return None


def arr_setitem(I, ref, key, v, n, st):
    I.mutate(ref, n, st, "array item assignment")
    kt = I.tags_of(key, st)
    m = st.mut(ref.oid)
    c = as_cell(I, v, st)
    if isinstance(key, Sc) and key.cell.lab in ("O", "D"):
        I.event("label-pos", n, "an %s label is used as an array position" % lab_name(key.cell.lab))
    i = constof(key)
    if m.exact is not None and isinstance(i, int) and -len(m.exact) <= i < len(m.exact):
        ex = list(m.exact)
        ex[i] = c
        m.exact = tuple(ex)
    else:
        m.exact = None
    if isinstance(key, SliceV) and all(constof(x) is None for x in (key.lo, key.hi)):
        m.cell = c
    else:
        m.cell = cell_join(m.cell, c.tag(kt)) if m.cell != UNK or True else c
        if miss.ON[0]:
            m.cell = m.cell.w(term=None)
    if c.tags or kt:
        m.cell = m.cell.tag(c.tags | kt)


# ======================================================================
# opaque library objects
# ======================================================================
def opq_attr(I, ref, name, n, st):
    o = st.heap[ref.oid]
    t = o.typ
    if t == "moderesult":
        if name == "mode":
            return Sc(o.cell)
        if name == "count":
            return sc(o.cell.tags, dim=D0, dt="num")
        return MethV(ref, name)
    if t == "optresult":
        if name == "x":
            return I.new(st, Arr(cell=Cell(o.cell.tags, D0, dt="num", term=o.cell.term)), n)
        return Top(o.cell.tags)
    if t == "grid":
        if name not in I.api["classes"]["FacetGrid"] and not name.startswith("_"):
            I.fail("missing-attr", n, "FacetGrid has no attribute '%s'" % name, attr=name, st=st)
        if name in ("axes",):
            return I.new(st, Opq(typ="axlist", cell=o.cell), n)
        if name in ("fig", "figure"):
            return I.new(st, Opq(typ="fig", cell=o.cell), n)
        if name == "ax":
            return I.new(st, Opq(typ="ax", cell=o.cell), n)
        return MethV(ref, name)
    if t == "ax":
        if name not in I.api["classes"]["Axes"] and name not in ("spines", "patches", "lines", "xaxis", "yaxis", "figure", "transAxes", "transData",
                                                                "collections", "title", "legend_", "texts", "dataLim", "viewLim", "fmt_xdata", "fmt_ydata", "artists", "containers", "images", "tables"):
            I.fail("missing-attr", n, "Axes has no attribute '%s'" % name, attr=name, st=st)
        if name in ("spines", "patches", "lines", "xaxis", "yaxis", "figure", "transAxes", "transData", "collections", "title"):
            return Top(o.cell.tags)
        return MethV(ref, name)
    if t == "fig":
        return MethV(ref, name)
    if t == "path":
        p = o.data.get("p")
        if name == "parent":
            return new_path(I, None if p is None else os.path.dirname(p), o.cell.tags, n, st)
        if name in ("name", "stem", "suffix"):
            import pathlib
            return sc(o.cell.tags, dt="str") if p is None else k(getattr(pathlib.PurePosixPath(p), name))
        if name in ("parts", "parents", "anchor", "root", "drive", "suffixes"):
            return Top(o.cell.tags)
        return MethV(ref, name)
    if t in ("axlist", "axes2"):
        return MethV(ref, name)
    return Top(o.cell.tags)


def rv_method(I, v, name, args, kwargs, n, st):
    rv = v.cell.const
    tags = alltags(I, args, kwargs, st) | v.cell.tags
    if name in ("ppf", "isf"):
        q = args[0] if args else kwargs.get("q", TOP)
        def f(c):
            qt = T.mul(T.const(100), c.term) if c.term is not None else None
            if name == "isf" and qt is not None:
                qt = T.sub(T.const(100), qt)
            rt = rv.term()
            t = T.atom("PCT", rt, qt) if qt is not None and rt is not None else None
            return Cell(tags | c.tags, rv.dim, None, None, t, NOC, "num")
        return lift(I, [q], f, n, st)
    if name in ("mean", "std", "median"):
        rt = rv.term()
        return Sc(Cell(tags, rv.dim, None, None, T.atom("rv" + name, rt) if rt is not None else None, NOC, "num"))
    if name == "var":
        d = rv.dim
        return Sc(Cell(tags, ("P", d[1] * 2, d[2] * 2) if isP(d) else None, dt="num"))
    if name in ("cdf", "sf", "pdf", "logpdf", "logcdf"):
        return lift(I, [args[0]] if args else [TOP], lambda c: Cell(c.tags | tags, D0 if name in ("cdf", "sf") else None, dt="num"), n, st)
    if name == "rvs":
        rs = kwargs.get("random_state")
        if rs is None:
            I.event("rng-global", n, "draws from the process-wide random state (scipy frozen distribution)")
        return I.new(st, Arr(cell=Cell(tags | {"simv"}, rv.dim)), n)
    return Top(tags)


def opq_call(I, ref, args, kwargs, n, st):
    return I.opaque(args, kwargs, st, st.heap[ref.oid].cell.tags)


def opq_setattr(I, ref, name, v, n, st):
    return


def new_path(I, p, tags, n, st):
    return I.new(st, Opq(typ="path", cell=Cell(tags), data={"p": p}), n)


def path_text(v, st):
    """text of a path-like value, None when unknown"""
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        return o.data.get("p") if isinstance(o, Opq) and o.typ == "path" else None
    c = constof(v)
    return c if isinstance(c, str) else None


def path_call(I, name, args, kwargs, n, st):
    """os.path functions and pathlib constructors on known paths"""
    import posixpath
    tags = alltags(I, args, kwargs, st)
    xs = [path_text(a, st) for a in args]
    known = None not in xs and not kwargs
    if name.startswith("os.path."):
        f = name[8:]
        if known and f in ("join", "dirname", "basename", "abspath", "realpath", "normpath", "split", "splitext", "expanduser", "normcase") and xs:
            r = getattr(posixpath, {"abspath": "normpath", "realpath": "normpath"}.get(f, f))(*xs)
            return I.seq(st, [k(x) for x in r], "tuple", node=n) if isinstance(r, tuple) else k(r)
        if f in ("exists", "isfile", "isdir"):
            return k(getattr(os.path, f)(*xs)) if known and xs and posixpath.isabs(xs[0]) else sc(tags, dt="bool")
        return sc(tags, dt="str")
    if name.split(".")[-1] in ("Path", "PurePath", "PosixPath", "PurePosixPath"):
        return new_path(I, posixpath.normpath(posixpath.join(*xs)) if known and xs else None, tags, n, st)
    return new_path(I, None, tags, n, st)


def opq_getitem(I, ref, key, n, st):
    o = st.heap[ref.oid]
    if o.typ in ("axes", "axlist", "axes2"):
        ok = asobj(I, key, st)
        if isinstance(key, Sc) and o.typ == "axes2":
            return I.new(st, Opq(typ="axes", cell=o.cell), n)
        return I.new(st, Opq(typ="ax", cell=o.cell), n)
    return Top(o.cell.tags | I.tags_of(key, st))


def opq_method(I, ref, name, args, kwargs, n, st):
    o = st.heap[ref.oid]
    tags = alltags(I, args, kwargs, st)
    if o.typ == "grid":
        if name == "map" and args:
            data = o.data.get("data")
            if isinstance(data, Ref):
                for a in args[1:]:
                    c = constof(a)
                    if isinstance(c, str):
                        I.pd.need_col(I, data, c, n, st)
            xs = [a for a in args[1:]]
            if isinstance(args[0], FnV):
                I.call(args[0], [TOP for _ in xs], {kk: v for kk, v in kwargs.items()}, n, st)
            hk = o.data.get("hue_kws")
            kw = I.api["classes"]["FacetGrid"].get("map")
            return ref
        if name == "map_dataframe" and args:
            data = o.data.get("data")
            return ref
        check_sig(I, I.api["classes"]["FacetGrid"].get(name), "FacetGrid." + name, args, kwargs, n, st)
        if name in ("savefig",):
            I.event("file-write", n, "writes an exhibit", path=args[0] if args else None, tags=I.tags_of(args[0], st) if args else EMPTY)
        return ref
    if o.typ in ("ax", "fig"):
        if name == "savefig":
            I.event("file-write", n, "writes an exhibit", path=args[0] if args else None, tags=I.tags_of(args[0], st) if args else EMPTY)
        if name in ("add_subplot", "gca", "twinx"):
            return I.new(st, Opq(typ="ax"), n)
        if name == "subplots":
            return I.new(st, Opq(typ="axes"), n)
        return Top(o.cell.tags | tags)
    if o.typ == "axlist":
        if name in ("ravel", "flatten", "reshape"):
            return ref
    if o.typ == "path":
        if name in ("write_text", "write_bytes", "mkdir", "unlink", "touch", "rename", "rmdir"):
            I.event("effect", n, "calls Path.%s" % name, name="pathlib.Path." + name, what="files", scoped=False)
        p = o.data.get("p")
        if name in ("joinpath", "with_name", "with_suffix", "with_stem", "relative_to"):
            xs = [path_text(a, st) for a in args]
            import pathlib
            try:
                q = None if p is None or None in xs else str(getattr(pathlib.PurePosixPath(p), name)(*xs))
            except Exception:
                q = None
            return new_path(I, q, o.cell.tags | tags, n, st)
        if name in ("resolve", "absolute", "expanduser"):
            return ref
        if name in ("as_posix", "__str__", "__fspath__"):
            return sc(o.cell.tags, dt="str") if p is None else k(p)
        if name in ("exists", "is_file", "is_dir"):
            return sc(o.cell.tags, dt="bool") if p is None else k({"exists": os.path.exists, "is_file": os.path.isfile, "is_dir": os.path.isdir}[name](p))
        if name in ("glob", "rglob", "iterdir") and p is not None and os.path.isdir(p) and (name == "iterdir" or (args and isinstance(constof(args[0]), str))):
            import pathlib
            b = pathlib.Path(p)
            try:
                found = sorted(str(x) for x in (b.iterdir() if name == "iterdir" else getattr(b, name)(constof(args[0]))) if "__pycache__" not in x.parts)
                return I.new(st, Seq(kind="gen", segs=[(new_path(I, x, EMPTY, n, st), False) for x in found]), n)
            except Exception:
                pass
        return Top(o.cell.tags | tags)
    return Top(o.cell.tags | tags)


def plot_call(I, name, args, kwargs, n, st):
    tags = alltags(I, args, kwargs, st)
    if name.startswith("matplotlib.pyplot.") or name == "matplotlib.pyplot":
        f = name[18:]
        if f == "savefig":
            I.event("file-write", n, "writes an exhibit", path=args[0] if args else None, tags=I.tags_of(args[0], st) if args else EMPTY)
            return NONE
        if f == "subplots":
            cs = [constof(a) for a in args[:2]] + [1] * (2 - len(args[:2]))
            nr = constof(kwargs["nrows"]) if "nrows" in kwargs else cs[0]
            nc = constof(kwargs["ncols"]) if "ncols" in kwargs else cs[1]
            typ = "ax" if (nr, nc) == (1, 1) and constof(kwargs.get("squeeze", TRUE)) is not False else ("axes2" if nr != 1 and nc != 1 else "axes")
            return I.seq(st, [I.new(st, Opq(typ="fig"), n), I.new(st, Opq(typ=typ), n)], node=n)
        if f in ("figure", "gcf"):
            return I.new(st, Opq(typ="fig"), n)
        if f in ("gca", "subplot", "axes"):
            return I.new(st, Opq(typ="ax"), n)
        if f == "style.context" or f == "rc_context":
            return I.new(st, Opq(typ="stylectx"), n)
        return Top(tags)
    if name == "seaborn.FacetGrid":
        check_sig(I, I.api["modules"]["seaborn"].get("FacetGrid"), "seaborn.FacetGrid", args, kwargs, n, st)
        data = args[0] if args else kwargs.get("data")
        if isinstance(data, Ref):
            for a in ("col", "row", "hue"):
                c = constof(kwargs[a]) if a in kwargs else NOC
                if isinstance(c, str):
                    I.pd.need_col(I, data, c, n, st)
        I.event("facet", n, "FacetGrid", hue_kws=kwargs.get("hue_kws"), data=data)
        return I.new(st, Opq(typ="grid", cell=Cell(tags), data={"data": data, "hue_kws": kwargs.get("hue_kws")}), n)
    if name in ("seaborn.axes_style", "seaborn.plotting_context", "matplotlib.rc_context", "seaborn.color_palette"):
        return I.new(st, Opq(typ="stylectx"), n)
    return Top(tags)
