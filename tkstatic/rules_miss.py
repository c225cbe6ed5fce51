"""Rules about missing amounts: C23."""
from .rules import *
from .sweep import *
from .rules_sweep import why
from . import miss, scen


def offset(t, base):
    """how many positions t lies after base, None when they cannot be compared"""
    if isinstance(t, str) or isinstance(base, str):
        return 0 if t == base else None
    d = T.sub(t, base)
    if d is None or not T.is_num(d):
        return None
    return int(d[0][1]) if d else 0


def resolve(t, r, c):
    """the value of a term for the cell (r, c): ("cell"|"ind", rows after, columns after), ("fill",), ("num", v), ("nan",), ("ite", cond, a, b) or None"""
    if t is None:
        return None
    if T.is_num(t):
        return ("num", float(t[0][1]) if t else 0.0)
    key = T.key_of(t)
    if key is None:
        return None
    f = key[0]
    if f == "num":
        return ("num", float(key[1]))
    if f == "NaN":
        return ("nan",)
    if f in ("cells", "triind"):
        return ("cell" if f == "cells" else "ind", 0, 0)
    if f == "at":
        inner = resolve(key[1], r, c)
        dr, dc = offset(key[2], r), offset(key[3], c)
        if inner is None or dr is None or dc is None:
            return None
        if inner[0] in ("cell", "ind"):
            return (inner[0], inner[1] + dr, inner[2] + dc)
        return inner if (dr, dc) == (0, 0) else None
    if f == "ffill":
        inner = resolve(key[2], r, c)
        return ("fill",) if inner == ("cell", 0, 0) and key[1] == "D" else None
    if f == "SHIFT":
        inner = resolve(key[1], r, c)
        if inner is None or inner[0] not in ("cell", "ind") or not isinstance(key[3], int) or key[2] not in ("O", "D"):
            return None
        return (inner[0], inner[1] - (key[3] if key[2] == "O" else 0), inner[2] - (key[3] if key[2] == "D" else 0))
    if f == "ite":
        return ("ite", key[1], key[2], key[3])
    return None


HOLDS = {"Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}
FLIP = {"Eq": "Eq", "NotEq": "NotEq", "Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}


class Guard:
    """what the conditions on the way to an assignment say about the cell (r, c)"""

    def __init__(self, facts, r, c):
        self.r, self.c = r, c
        self.missing = None         # True/False: known to be missing / observed
        self.inside = None          # True/False: known to be in / beyond the observed region
        self.other = []             # conditions about other cells
        self.unknown = False
        for t, p in facts:
            self.add(t, p)

    def add(self, t, pol):
        key = T.key_of(t)
        if key is None:
            self.unknown = True
            return
        f = key[0]
        if f == "not":
            return self.add(key[1], not pol)
        if f == "and" and pol or f == "or" and not pol:
            self.add(key[1], pol)
            return self.add(key[2], pol)
        if f in ("and", "or"):
            a, b = Guard([(key[1], pol)], self.r, self.c), Guard([(key[2], pol)], self.r, self.c)
            if a.missing is not None and a.missing == b.missing:
                self.missing = a.missing
            if a.inside is not None and a.inside == b.inside:
                self.inside = a.inside
            self.unknown = self.unknown or a.unknown or b.unknown
            return
        if f == "isnan":
            x = resolve(key[1], self.r, self.c)
            if x is None:
                self.unknown = True
            elif x == ("cell", 0, 0):
                self.missing = pol
            else:
                self.other.append("%s is%s missing" % (place(x), "" if pol else " not"))
            return
        if f == "cmp" and len(key) == 4:
            x, y = resolve(key[2], self.r, self.c), resolve(key[3], self.r, self.c)
            if x is None or y is None:
                if not all(t and all(T.name_of(i)[0] in ("pos", "it") for i in T.atoms_in(t)) and "valid" not in T.show(t, 9) for t, u in ((key[2], x), (key[3], y)) if u is None):
                    self.unknown = True             # (a condition on the position says nothing about the amount)
                return
            for u, v, o in ((x, y, key[1]), (y, x, FLIP.get(key[1]))):
                if u[0] == "ind" and v[0] == "num" and o in HOLDS:
                    may = {i for i in (0.0, 1.0) if HOLDS[o](i, v[1]) == pol}
                    if u[1:] != (0, 0):
                        if len(may) == 1:
                            self.other.append("the indicator %s" % place(u))
                    elif len(may) == 1:
                        self.inside = may == {0.0}
                    return
            me = ("cell", 0, 0)
            if x == y == me and key[1] in ("Eq", "NotEq"):
                self.missing = (key[1] == "NotEq") == pol       # only a missing amount differs from itself
            elif me in (x, y) and (key[1] != "NotEq") == pol and x != y:
                self.missing = False                            # a comparison with a missing amount does not hold
            elif x[0] in ("cell", "ind", "num") and y[0] in ("cell", "ind", "num"):
                self.other.append("a comparison of amounts")
            else:
                self.unknown = True
            return
        self.unknown = True


def place(x):
    if x[0] not in ("cell", "ind"):
        return {"num": "a number", "nan": "nothing", "fill": "the cell carried forward"}.get(x[0], "a value")
    if x[1:] == (0, 0):
        return "of the cell itself"
    w = lambda d, a: "" if d == 0 else "%d %s %s" % (abs(d), a + ("s" if abs(d) > 1 else ""), "later" if d > 0 else "earlier")
    return "of the cell " + " and ".join(y for y in (w(x[1], "origin"), w(x[2], "development period")) if y)


def judge_store(key, term, facts):
    """(verdict, reason): True fine, False broken, None undecided"""
    r, c = key
    if r is None or c is None:
        return None, "position of the assigned cell not tracked"
    x = resolve(term, r, c)
    if x is not None and x[0] == "ite":
        out = []
        for p, v in ((True, x[2]), (False, x[3])):
            out.append(judge_store(key, v, facts | {(x[1], p)}))
        for o in out:
            if o[0] is False:
                return o
        return (True, "") if all(o[0] for o in out) else (None, [o[1] for o in out if not o[0]][0])
    g = Guard(facts, r, c)
    first = not isinstance(c, str) and c == ()
    if x == ("cell", 0, 0):
        return True, ""
    if x == ("nan",):
        if g.missing is True or g.inside is False and not g.unknown:
            return True, ""
        return (None, "guard not tracked") if g.unknown else (False, "observed amounts are blanked")
    if x is None and g.missing is not True:
        return None, "assigned value not tracked"
    fill = x == ("fill",)
    if not fill and g.missing is not True:
        if g.missing is False:
            return False, "observed amounts are replaced"
        if g.unknown:
            return None, "guard not tracked"
        return False, "the amount is replaced although it may be observed" + ("" if not g.other else " (it is tested whether that %s)" % ", ".join(g.other))
    if not first:
        if g.inside is False:
            return False, "cells beyond the last observation are filled"
        if g.inside is None:
            if g.unknown:
                return None, "guard not tracked"
            return False, "cells beyond the last observation of their development period may be filled"
        if fill or x == ("cell", 0, -1):
            return True, ""
        if x is None:
            return None, "assigned value not tracked"
        return False, "the missing amount is taken from %s" % place(x).replace("of ", "", 1) if x[0] == "cell" else "the missing amount becomes %s" % place(x)
    if fill or x is not None and x[0] == "num":
        if x is not None and x[0] == "num" and x[1] <= 0:
            return False, "a missing first amount becomes zero or negative"
        return True, ""
    return None, "assigned value not tracked"


# what each remembered description of a triangle depends on: which cells hold an amount ("shape"; filling a gap in front of the last
# observation of a development period does not matter to "columns"), or the amounts themselves
DEPENDS = {"_clvi": "columns", "_triind": "columns", "_rlvi": "rows", "_latest": "rows", "_latest_by_origin": "rows", "_latest_by_devp": "rows", "_maturity": "columns",
           "_nbr_cells": "all", "_a2a": "all", "_a2aind": "all", "_a2a_lvi": "all", "_ranked_a2a": "all", "_a2a_assignment": "all"}


def leaves(term, facts, r, c):
    x = resolve(term, r, c)
    if x is not None and x[0] == "ite":
        return leaves(x[2], facts | {(x[1], True)}, r, c) + leaves(x[3], facts | {(x[1], False)}, r, c)
    return [(x, Guard(facts, r, c))]


def stale(e, attrs):
    """remembered descriptions that the assignment makes wrong and that are still in place afterwards"""
    r, c = e.data["key"]
    if r is None or c is None:
        return []
    return sorted({k for x, g in leaves(e.data["term"], e.data["facts"], r, c) for k in stale1(e, attrs, x, g)})


def stale1(e, attrs, x, g):
    out = []
    if x in (None, ("cell", 0, 0)) or x == ("nan",) and g.missing is not False and g.inside is False or x == ("nan",) and g.missing:
        return []
    for k, oid in e.data["memos"]:
        d, v = DEPENDS.get(k), attrs.get(k)
        if d is None or not (isinstance(v, Ref) and v.oid == oid):
            continue
        if d == "columns" and g is not None and g.inside is True:
            continue
        if g is None or g.unknown:
            continue
        out.append(k.lstrip("_"))
    return out


@prop("C23")
def c23(rep, W):
    R1, R2, R3, R4, R5 = "missing-is-not-zero", "gap-keeps-amounts", "completed-inside", "last-by-position", "description-current"
    rep.rule(R1, "no cell of a triangle holds a zero or other number that was put in place of an amount that is not in the input")
    rep.rule(R2, "differences along development are taken over observed or carried-forward amounts only, and running totals skip missing ones, so the amounts "
                 "next to a gap are neither lost nor counted twice")
    rep.rule(R3, "every assignment to a cell of a triangle happens only where the cell is missing and lies before the last observation of its development "
                 "period, and takes the amount of the same origin one development period earlier (a missing first period: a positive constant)")
    rep.rule(R4, "the last observation of an origin or development period is found by its position, not by how many amounts are observed; beyond it (and only "
                 "there) the indicator is 1")
    rep.rule(R5, "no cell of a triangle is assigned after a description of where its amounts are was computed and remembered, unless the assignment cannot change it")
    miss.ON[0] = True
    scen.VALTAGS[0] = frozenset([miss.MISS])

    def cells(s, ref):
        o = s.obj(ref)
        if not isinstance(o, Frame):
            return None
        t = frozenset()
        for c in list(o.cols.values()) + ([o.rest] if o.rest is not None else []):
            for x in [c.cell] + list(c.special.values()):
                if x is not None:
                    t = t | x.tags
        return t

    def judge(lab, s, ref):
        t = cells(s, ref)
        name = lab.split("(")[0] if ")." not in lab else lab.rsplit(".", 1)[1]
        if t is None:
            rep.unk(R1, lab, "triangle not tracked")
            return
        for tag, rule, txt in ((miss.ZEROED, R1, "a cell without an amount in the input holds a number"),
                               (miss.GAP, R2, "the amounts next to a missing one are lost or counted twice")):
            if tag in t:
                rep.bad(rule, "%s: %s" % (name, txt), "%s: %s" % (lab, txt), None, lab)
            elif miss.CARRY in t and miss.MISS not in t:
                rep.bad(R3, "%s: carried forward" % name, "%s: amounts are carried forward into every later cell, also beyond the last observation" % lab, None, lab)
            elif UNKTAG in t:
                rep.unk(rule, lab, "cells not fully tracked")
            else:
                rep.ok(rule, lab)

    def stores(lab, s, ref):
        attrs = getattr(s.obj(ref), "attrs", {})
        for e in s.events():
            if e.kind != "cellstore":
                continue
            old = stale(e, attrs)
            if old:
                rep.event(R5, e, "cells are assigned after %s was computed, which is remembered and then describes cells that are no longer there" % ", ".join(old),
                          "%s: %s" % (e.func.replace(".<lambda>", ""), "remembered description out of date"))
            else:
                rep.ok(R5, lab, e.func + ":" + str(e.line))
            v, txt = judge_store(e.data["key"], e.data["term"], e.data["facts"])
            if v is None:
                rep.unk(R3, lab, txt)
            elif v:
                rep.ok(R3, lab, e.func + ":" + str(e.line))
            else:
                rep.event(R3, e, txt, "%s: %s" % (e.func.replace(".<lambda>", ""), txt))

    built = []
    for key, o in constructions(W):
        if o.failed is not None:
            rep.unk(R1, o.label, "fails in the analysis: " + why(o.failed))
            continue
        judge(o.label, o.s, o.r)
        stores(o.label, o.s, o.r)
        c = W.cls_of(o.s, o.r)
        for m in ("to_cum", "to_incr"):
            if c and W.I.find_member(c, m) is not None:
                x = op(W, "%s.%s()" % (o.label, m), o.s.st, lambda s: s.meth(o.r, m), "m")
                if x.failed is None:
                    judge(x.label, x.s, x.r)
                    stores(x.label, x.s, x.r)
                else:
                    rep.unk(R1, x.label, "fails in the analysis: " + why(x.failed))
        if key[2:] == ("tabular", NAMES):
            built.append(o)
    # where the last observation is
    for o in built:
        last(rep, W, R4, o)


def last(rep, W, R4, o):
    posof = lambda l: T.atom("pos", T.atom("lastvalid", l))
    want = {"rlvi": ((("dev", T.atom("lastvalid", "D")), ("col_offset", posof("D")))), "clvi": (("origin", T.atom("lastvalid", "O")), ("row_offset", posof("O")))}
    for a, cols in want.items():
        lab = "%s.%s" % (o.label, a)
        x = op(W, lab, o.s.st, lambda s: s.attr(o.r, a), "attr")
        if x.failed is not None:
            rep.unk(R4, lab, "fails in the analysis: " + why(x.failed))
            continue
        fr = columns(x.s, x.r)
        for col, t in cols:
            cell = fr[col].cell if col in fr else None
            counted(rep, R4, "%s[%s]" % (lab, col), "%s: %s" % (a, col), cell, t)
    for a, col in (("latest", "dev"), ("maturity", None), ("latest_by_origin", None)):
        lab = "%s.%s" % (o.label, a)
        x = op(W, lab, o.s.st, lambda s: s.attr(o.r, a), "attr")
        if x.failed is not None:
            rep.unk(R4, lab, "fails in the analysis: " + why(x.failed))
            continue
        ob = x.s.obj(x.r)
        cell = ob.cols[col].cell if col and isinstance(ob, Frame) and col in ob.cols else ob.cell if isinstance(ob, Ser) else None
        counted(rep, R4, lab, a, cell, None)
    lab = o.label + ".triind"

    def fresh(s):
        # computed anew: a memo filled in while the triangle was built hides the computation
        f = s.obj(o.r)
        if "_triind" in f.attrs:
            s.st.mut(o.r.oid).attrs["_triind"] = NONE
        return s.attr(o.r, "triind")
    x = op(W, lab, o.s.st, fresh, "attr")
    if x.failed is not None:
        rep.unk(R4, lab, "fails in the analysis: " + why(x.failed))
        return
    n = 0
    for e in x.s.events():
        if e.kind != "indstore":
            continue
        lo, hi, v = e.data["lo"], e.data["hi"], e.data["value"]
        full = all(isinstance(b, Sc) and b.cell.const is None for b in (lo, hi))
        if v in (0, 1) and full:
            continue
        n += 1
        t = lo.cell.term if isinstance(lo, Sc) else None
        to_end = isinstance(hi, Sc) and hi.cell.const is None
        if isinstance(lo, Sc) and "counted" in lo.cell.tags:
            rep.event(R4, e, "the indicator starts after as many rows as amounts are observed, not after the last one", "triind: derived from a count")
        elif v == 1 and to_end and e.data["pos"] and t is not None and lastform(t):
            if t == T.add(posof("O"), T.const(1)):
                rep.ok(R4, lab, e.func)
            else:
                rep.event(R4, e, "the indicator marks the rows from %s on" % T.show(t, 5), "triind: wrong rows")
        else:
            rep.unk(R4, lab, "derivation not tracked")
    if not n:
        rep.unk(R4, lab, "derivation not tracked")


def counted(rep, R4, lab, construct, cell, want):
    if cell is None:
        rep.unk(R4, lab, "not tracked")
    elif "counted" in cell.tags:
        rep.bad(R4, construct + ": derived from a count", "%s is derived from the number of observed amounts, which is not the position of the last one when amounts are missing" % lab, None, lab)
    elif want is not None and cell.term is not None and cell.term != want and lastform(cell.term) and lastform(want):
        rep.bad(R4, construct + ": wrong position", "%s is %s, not %s" % (lab, T.show(cell.term, 5), T.show(want, 5)), None, lab)
    elif want is not None and cell.term != want:
        rep.unk(R4, lab, "derivation not tracked")
    else:
        rep.ok(R4, lab)


def lastform(t):
    """is the term made of last/first observations and numbers only?"""
    ks = [T.name_of(i) for i in T.atoms_in(t)]
    return bool(ks) and all(key[0] in ("lastvalid", "firstvalid", "pos") for key in ks)
