"""The package's public surface as abstract operations: inputs, estimators,
result methods.  Everything is enumerated from the source of the checked tree."""
from .scen import *
from . import dom

UNKTAG = "?"
NAMES = ("origin", "dev", "value")
CUSTOM = ("ay_", "age_", "loss_")
Q = (0.75, 0.95)

ESTIMATORS = {
    "base": ("base_cl", "trikit.estimators.base.BaseChainLadder"),
    "mack": ("mack_cl", "trikit.estimators.mack.MackChainLadder"),
    "boot": ("boot_cl", "trikit.estimators.bootstrap.BootstrapChainLadder"),
}


class World:
    """one analysed program and the abstract histories built on it"""

    def __init__(self, root):
        self.prog = Program(root)
        self.root = root
        self.I = Interp(self.prog)
        self.nscen = 0
        self.labels = []
        self.failures = []          # (label, Failed)
        dom.SIMHOOK[0] = self.simid

    def simid(self, cell):
        """a value becomes a simulation identifier"""
        st = self.I.stack
        if st and not self.I.quiet:
            self.I.event("simid", self.I.atd.get(len(st)), "simulation identifier %s" % T.show(cell.term, 4) if cell.term is not None else "simulation identifier", term=cell.term)

    def scn(self, label, st=None):
        self.nscen += 1
        self.labels.append(label)
        return Scn(self.I, label, st)

    def tri(self, label="build", tri_type=None, data_format=None, shape="tabular", names=NAMES, owner=("data",), tags=EMPTY,
            extra=(), index=None, colsname=None, term=None, ro=("ord", "dup"), rep=None):
        """(scenario, triangle) built through the public constructor function"""
        s = self.scn(label)
        rep = rep or ("C" if (data_format or "incr").startswith("c") else "I")
        kw = {}
        if tri_type is not None:
            kw["tri_type"] = k(tri_type)
        if data_format is not None:
            kw["data_format"] = k(data_format)
        if shape == "triangle":
            d = s.triframe(rep=rep, index=index, colsname=colsname, owner=owner, tags=tags)
            kw["data_shape"] = k("triangle")
        else:
            d = s.tabular(rep=rep, names=names, owner=owner, tags=tags, extra=extra, term=term, ro=ro)
            if names != NAMES:
                kw.update(origin=k(names[0]), dev=k(names[1]), value=k(names[2]))
        s.data = d
        t = s.call("trikit.totri", d, **kw)
        return s, t

    def cls_of(self, s, ref):
        return getattr(s.st.heap[ref.oid], "cls", None) if isinstance(ref, Ref) else None

    def members(self, cls):
        """[(name, FuncInfo)] public members of a package class, inherited ones included"""
        out = {}
        for c in reversed(self.I.mro(cls)):
            ci = self.I.classes.get(c)
            if ci is None:
                continue
            for m, fi in ci.members.items():
                if not m.startswith("_"):
                    out[m] = fi
        return sorted(out.items())

    def props(self, cls):
        return [m for m, fi in self.members(cls) if fi.kind in ("prop", "cachedprop")]

    def methods(self, cls):
        """[(name, required parameter names)]"""
        out = []
        for m, fi in self.members(cls):
            if fi.kind not in ("func", "static", "classm"):
                continue
            pos = fi.pos[0 if fi.kind == "static" else 1:]
            nd = len(fi.defaults)
            req = pos[:len(pos) - nd] if nd else pos
            req = list(req) + [x for x in fi.kwonly if x not in fi.kwdefaults]
            out.append((m, req))
        return out

    def default_args(self, s, req, owner=()):
        """arguments for required parameters, or None when a parameter is unknown to the analysis"""
        kw = {}
        for p in req:
            if p in ("q", "qtls", "quantiles"):
                kw[p] = s.lst([k(x) for x in Q], owner=owner)
            elif p in ("p",):
                kw[p] = k(0.05)
            else:
                return None
        return kw

    def own(self, s, ref, name, seen=None, depth=6):
        """label an object and everything reachable from it as belonging to `name`"""
        st = s.st
        seen = set() if seen is None else seen
        todo = [(ref, name, depth)]
        while todo:
            v, nm, d = todo.pop()
            for a in atoms_of(v):
                if not isinstance(a, Ref) or a.oid in seen or a.oid not in st.heap or d < 0:
                    continue
                seen.add(a.oid)
                o = st.mut(a.oid)
                if "shared" in o.owner:
                    continue
                o.owner = o.owner | {nm}
                if isinstance(o, (Inst, Frame)):
                    for x, y in o.attrs.items():
                        todo.append((y, nm + "." + x, d - 1))
                if isinstance(o, Seq):
                    for x, _ in o.segs:
                        todo.append((x, nm + "[]", d - 1))
                if isinstance(o, Dct):
                    for x, y in o.items.items():
                        todo.append((y, "%s[%r]" % (nm, x), d - 1))
        return seen

    def reach(self, s, ref, skip=()):
        """object ids reachable from a value (through attributes, containers and view bases)"""
        st = s.st
        seen, todo = {}, [(ref, "")]
        while todo:
            v, path = todo.pop()
            for a in atoms_of(v):
                if not isinstance(a, Ref) or a.oid in seen or a.oid not in st.heap:
                    continue
                if a.oid in skip:
                    continue
                seen[a.oid] = path
                o = st.heap[a.oid]
                if isinstance(o, (Inst, Frame)):
                    for x, y in o.attrs.items():
                        todo.append((y, path + "." + x))
                elif isinstance(o, Seq):
                    for x, _ in o.segs:
                        todo.append((x, path + "[]"))
                elif isinstance(o, Dct):
                    for x, y in o.items.items():
                        todo.append((y, path + "[%r]" % (x,)))
                    if o.rest is not None:
                        todo.append((o.rest, path + "[*]"))
                if o.base is not None:
                    todo.append((Ref(o.base), path + "<view of>"))
        return seen

    def estimate(self, s, tri, which, wrapper=True, **kw):
        m, cls = ESTIMATORS[which]
        if wrapper:
            return s.meth(tri, m, **kw)
        est = s.call(cls, tri)
        return s.call(est, **kw)

    def field(self, s, ref, name):
        """value of an attribute as stored, or None"""
        v = s.st.heap[ref.oid].attrs.get(name) if isinstance(ref, Ref) and isinstance(s.st.heap[ref.oid], (Inst, Frame)) else None
        return v


def columns(s, ref):
    """{column: Col} of an abstract frame, {} when it is not one"""
    o = s.obj(ref)
    if isinstance(o, Frame):
        return o.cols
    return {}


def cell_of(o, special=None):
    """cell of a series/array/column object for ordinary rows or one special row"""
    if isinstance(o, (Ser, Col)):
        return o.special.get(special) if special is not None else o.cell
    if isinstance(o, Arr):
        return o.cell
    return None


def deep_tags(s, v):
    return s.I.tags_of(v, s.st)


def unknown(s, v):
    """is (part of) the value beyond the analysis?"""
    for a in atoms_of(v):
        if isinstance(a, Top) or a == UNB:
            return True
    return UNKTAG in deep_tags(s, v)
