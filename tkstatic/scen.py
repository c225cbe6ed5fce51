"""Analysis scenarios: abstract inputs handed to the package's public surface."""
import os
import sys
from .dom import *
from .interp import Interp, Program, Dead, AnalysisError, Exc, FnV as _FnV
from . import terms as T

sys.setrecursionlimit(20000)

OLAB = Cell(lab="O", dt="int")
DLAB = Cell(lab="D", dt="int")


class Failed(Exception):
    """the abstract run of a public operation always raises"""

    def __init__(self, excs):
        self.excs = excs


VALTAGS = [EMPTY]       # tags of every input amount


class Scn:
    """one abstract history: a state plus the operations applied to it"""

    def __init__(self, I, label, st=None):
        self.I, self.label = I, label
        self.st = (st or I.st0).fork()
        self.mark = len(I.events)
        I._seen.pop(label, None)

    def fork(self, label=None):
        return Scn(self.I, label or self.label, self.st)

    def new(self, obj):
        return self.I.new(self.st, obj)

    # ---- abstract inputs
    def tabular(self, rep="I", names=("origin", "dev", "value"), owner=("data",), tags=EMPTY, extra=(), dim=D1, term=None,
                ro=("ord", "dup")):
        cols = {names[0]: Col(OLAB), names[1]: Col(DLAB),
                names[2]: Col(Cell(frozenset(tags) | VALTAGS[0], dim=dim, rep=rep, dt="num", term=term))}
        for e in extra:
            cols[e] = Col(Cell(dt="str"))
        f = Frame(cols=cols, ix=RANGE, ro=frozenset(ro), owner=frozenset(owner))
        return self.new(f)

    def triframe(self, rep="I", index=None, colsname=None, owner=("data",), tags=EMPTY, dim=D1):
        f = Frame(cols={}, rest=Col(Cell(frozenset(tags) | VALTAGS[0], dim=dim, rep=rep, dt="num")), restlab="D", colsname=colsname,
                  ix=Ix((index,), (OLAB,), ()), owner=frozenset(owner))
        return self.new(f)

    def lst(self, vals, owner=(), kind="list"):
        return self.new(Seq(kind=kind, segs=[(v, False) for v in vals], owner=frozenset(owner)))

    def manylst(self, cell, owner=(), kind="list"):
        return self.new(Seq(kind=kind, segs=[(Sc(cell), True)], owner=frozenset(owner)))

    def dct(self, d, owner=()):
        return self.new(Dct(items=dict(d), owner=frozenset(owner)))

    def arr(self, cell, owner=()):
        return self.new(Arr(cell=cell, owner=frozenset(owner)))

    def ser(self, cell, ixcell, owner=(), name=None):
        return self.new(Ser(cell=cell, ix=Ix((None,), (ixcell,), ()), owner=frozenset(owner), name=name))

    # ---- operations
    def run(self, fn):
        """run fn under this scenario's label; raise Failed when every path raises"""
        I = self.I
        old, I.scen = I.scen, self.label
        I.excs.append([])
        try:
            r = fn()
            self.excs = I.excs.pop()
            I.excs[-1] = []
            return r
        except Dead:
            self.excs = I.excs.pop()
            raise Failed(self.excs)
        finally:
            I.scen = old

    def pub(self, path):
        """a public object by dotted path, e.g. trikit.totri"""
        parts = path.split(".")
        mod = parts[0]
        i = 1
        while i < len(parts) and mod + "." + parts[i] in self.I.prog.trees:
            mod += "." + parts[i]
            i += 1
        v = ModV(mod)
        if mod not in self.I.modobj:
            raise AnalysisError("public module %s does not exist" % mod)
        for p in parts[i:]:
            if isinstance(v, ModV):
                x = self.I.global_get(v.name, p, self.st)
                if x is None:
                    raise AnalysisError("public name %s does not exist" % path)
                v = x
            else:
                v = self.I.getattr(v, p, None, self.st)
        return v

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.pub(f)
        return self.run(lambda: self.I.call(f, list(args), dict(kw), None, self.st))

    def meth(self, obj, name, *args, **kw):
        def go():
            m = self.I.getattr(obj, name, None, self.st)
            return self.I.call(m, list(args), dict(kw), None, self.st)
        return self.run(go)

    def attr(self, obj, name):
        return self.run(lambda: self.I.getattr(obj, name, None, self.st))

    def obj(self, ref):
        return self.st.heap[ref.oid] if isinstance(ref, Ref) else None

    def events(self):
        return self.I.events[self.mark:]

    def show(self, ref, depth=1):
        return show(self.st, ref, depth)


def show(st, v, depth=2, ind="  "):
    if isinstance(v, Un):
        return "Un(" + " | ".join(show(st, a, depth, ind) for a in v.atoms) + ")"
    if not isinstance(v, Ref):
        return repr(v)
    o = st.heap[v.oid]
    pre = type(o).__name__ + "#%d" % v.oid + ("[" + ",".join(sorted(map(str, o.owner))) + "]" if o.owner else "")
    if isinstance(o, Frame):
        s = pre + " cls=%s ix=%s restlab=%s open=%s ro=%s" % (o.cls, o.ix, o.restlab, o.open, set(o.ro))
        for c, x in o.cols.items():
            s += "\n" + ind + "%r: %r special=%r%s" % (c, x.cell, x.special, " maybe" if x.maybe else "")
        if o.rest is not None:
            s += "\n" + ind + "*rest*: %r special=%r" % (o.rest.cell, o.rest.special)
        return s
    if isinstance(o, Ser):
        return pre + " %r special=%r ix=%s name=%r ro=%s" % (o.cell, o.special, o.ix, o.name, set(o.ro))
    if isinstance(o, Arr):
        return pre + " %r exact=%r" % (o.cell, o.exact)
    if isinstance(o, Idx):
        return pre + " %s" % (o.ix,)
    if isinstance(o, Seq):
        return pre + " " + o.kind + " [" + ", ".join((show(st, x, depth - 1, ind + "  ") if depth else repr(x)) + ("*" if m else "") for x, m in o.segs) + "]"
    if isinstance(o, Dct):
        return pre + " {" + ", ".join("%r: %s" % (a, show(st, b, depth - 1) if depth else repr(b)) for a, b in o.items.items()) + "} rest=%r" % (o.rest,)
    if isinstance(o, Inst):
        s = pre + " cls=%s" % o.cls
        if depth:
            for a, b in o.attrs.items():
                s += "\n" + ind + a + ": " + show(st, b, depth - 1, ind + "    ")
        return s
    return pre + " " + repr(o.__dict__)
