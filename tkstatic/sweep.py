"""Every public operation of the package, as abstract histories (label, scenario, result, exhibit?)."""
from .world import *
from .lib_np import constof


class Op:
    __slots__ = ("label", "s", "r", "failed", "exhibit", "kind", "ref", "member", "kw")

    def __init__(self, label, s, r, failed, kind, ref=None, member=None, kw=None):
        self.label, self.s, self.r, self.failed, self.kind, self.ref, self.member, self.kw = label, s, r, failed, kind, ref, member, kw
        self.exhibit = is_exhibit(s.events())


def is_exhibit(events):
    return any(e.kind == "import" and e.data.get("name", "").split(".")[0] in ("matplotlib", "seaborn") and not e.data.get("toplevel")
               for e in events)


def op(W, label, st, fn, kind, **kw):
    s = W.scn(label, st)
    try:
        return Op(label, s, fn(s), None, kind, **kw)
    except Failed as e:
        W.failures.append((label, s, e))
        return Op(label, s, None, e, kind, **kw)


SER = lambda s: s.ser(Cell(dim=D0, dt="num"), DLAB.w(rep="[None:-1]"))
NUMLIST = lambda s: s.manylst(Cell(dim=D0, dt="num"))
NUMARR = lambda s: s.arr(Cell(dim=D0, dt="num"))
QL = lambda *q: (lambda s: s.lst([k(x) for x in q]))
ALPHA = Sc(Cell(dim=D0, dt="num", term=None))
# some number: no condition on it is decided
NUMBER = lambda name: lambda s: Sc(Cell(dim=D0, dt="num", term=T.atom(name)))
WHOLE = lambda name: lambda s: Sc(Cell(dim=D0, dt="pyint", term=T.atom(name)))

OPTIONS = {
    "base": [("", {}), ("sel=all-simple", {"sel": k("all-simple")}), ("sel=geometric-3", {"sel": k("geometric-3")}),
             ("sel=medial-3", {"sel": k("medial-3")}), ("tail=1.1", {"tail": k(1.1)}),
             ("sel=Series", {"sel": SER}), ("sel=list", {"sel": NUMLIST}), ("sel=array", {"sel": NUMARR}),
             ("sel=Series, tail=1.1", {"sel": SER, "tail": k(1.1)}), ("tail=any number", {"tail": NUMBER("tail")})],
    "mack": [("", {}), ("dist=norm", {"dist": k("norm")}), ("alpha=0", {"alpha": k(0)}), ("alpha=2", {"alpha": k(2)}),
             ("alpha=2, dist=norm", {"alpha": k(2), "dist": k("norm")}), ("two_sided", {"two_sided": TRUE}),
             ("q=0.9", {"q": k(0.9)}), ("q=[0.995, 0.5]", {"q": QL(0.995, 0.5)}), ("alpha=any number", {"alpha": NUMBER("alpha")})],
    "boot": [("", {}), ("parametric", {"parametric": TRUE}), ("two_sided", {"two_sided": TRUE}), ("q=0.9", {"q": k(0.9)}),
             ("interpolation=midpoint", {"interpolation": k("midpoint")}), ("random_state=516", {"random_state": k(516)}),
             ("sims=10, random_state=516, parametric", {"sims": k(10), "random_state": k(516), "parametric": TRUE}),
             ("sims=any number", {"sims": WHOLE("sims")})],
}


def opts(s, kw):
    return {a: (b(s) if callable(b) else b) for a, b in kw.items()}


def member_ops(W, st, ref, label, exhibits=True, cls=None):
    """every public property/method, with defaults and with each boolean option flipped"""
    s0 = W.scn(label, st)
    cls = cls or W.cls_of(s0, ref)
    if cls is None:
        return
    for m in W.props(cls):
        yield op(W, "%s.%s" % (label, m), st, lambda s: s.attr(ref, m), "prop", ref=ref, member=m)
    for m, req in W.methods(cls):
        base = W.default_args(s0, req)
        if base is None:
            continue
        fi = W.I.find_member(cls, m)
        if m in ("base_cl", "mack_cl", "boot_cl"):
            continue
        variants = [("", {})]
        for p, d in defaults_of(fi):
            if d is True or d is False:
                variants.append(("%s=%s" % (p, not d), {p: k(not d)}))
            if p == "display":
                variants.append(("display=faceted", {p: k("faceted")}))
            if p == "offset":
                variants += [("offset=1", {p: k(1)}), ("offset=-1", {p: k(-1)})]
            if p == "lb":
                variants.append(("lb=0", {p: k(0)}))
            if p == "exhibit_path":
                variants.append(("exhibit_path", {p: Sc(Cell({"exhibit_path"}, dt="str"))}))
            if p == "q" and "q" not in req:
                variants.append(("q=0.8", {p: k(0.8)}))
        if "q" in req:
            variants += [("q=0.9", {"q": k(0.9)}), ("q=[0.99, 0.01]", {"q": QL(0.99, 0.01)})]
            if "interpolation" in fi.pos:
                variants.append(("interpolation=higher", {"interpolation": k("higher")}))
        if fi.kwarg:
            variants.append(("figsize", {"figsize": lambda s: s.lst([k(9), k(6)], kind="tuple")}))
        for vn, kw in variants:
            def go(s, kw=kw):
                a = W.default_args(s, req)
                a.update(opts(s, kw))
                return s.meth(ref, m, **a)
            yield op(W, "%s.%s(%s)" % (label, m, vn), st, go, "meth", ref=ref, member=m, kw=kw)
    for m in ("__str__", "__repr__"):
        if W.I.find_member(cls, m) is not None:
            yield op(W, "%s.%s()" % (label, m), st, lambda s: s.meth(ref, m), "meth", ref=ref, member=m)


def defaults_of(fi):
    """[(parameter, constant default or None)] of a method"""
    out = []
    nd = len(fi.defaults)
    for p, d in list(zip(fi.pos[len(fi.pos) - nd:] if nd else [], fi.defaults)) + list(fi.kwdefaults.items()):
        out.append((p, constof(d)))
    return out


def estimates(W, st, tri, label="", which=None, wrappers=(True, False), options=OPTIONS):
    for w in which or ESTIMATORS:
        for wrapper in wrappers:
            for vn, kw in options[w]:
                lab = "%s%s(%s)" % (label, ESTIMATORS[w][0 if wrapper else 1].split(".")[-1], vn)
                yield w, wrapper, vn, op(W, lab, st, lambda s: W.estimate(s, tri, w, wrapper, **opts(s, kw)), "estimate", ref=tri, member=w, kw=kw)


def constructions(W, names=(NAMES, CUSTOM), index=None, colsname=None):
    """[(label, Op)] every way to build a triangle"""
    for tt in ("cum", "incr"):
        for df in ("incr", "cum"):
            for nm in names:
                lab = "totri(table, tri_type=%s, data_format=%s%s)" % (tt, df, ", custom names" if nm != NAMES else "")

                def go(s, nm=nm):
                    s.data = s.tabular(rep="C" if df == "cum" else "I", names=nm, extra=("lob",), owner=("arg:data",))
                    kw = {"tri_type": k(tt), "data_format": k(df)}
                    if nm != NAMES:
                        kw.update(origin=k(nm[0]), dev=k(nm[1]), value=k(nm[2]))
                    return s.call("trikit.totri", s.data, **kw)
                yield (tt, df, "tabular", nm), op(W, lab, None, go, "build")
            for ixn, cn in ((None, None), ("ay", "age")):
                lab = "totri(frame%s, tri_type=%s, data_format=%s)" % (" with named axes" if ixn else "", tt, df)

                def go2(s, ixn=ixn, cn=cn):
                    s.data = s.triframe(rep="C" if df == "cum" else "I", index=ixn, colsname=cn, owner=("arg:data",))
                    return s.call("trikit.totri", s.data, tri_type=k(tt), data_format=k(df), data_shape=k("triangle"))
                yield (tt, df, "triangle", NAMES if ixn is None else CUSTOM), op(W, lab, None, go2, "build")
        for nm in names:
            c = "CumTriangle" if tt == "cum" else "IncrTriangle"
            lab = "%s(table%s)" % (c, ", custom names" if nm != NAMES else "")

            def go3(s, nm=nm):
                s.data = s.tabular(rep="I", names=nm, owner=("arg:data",))
                kw = {}
                if nm != NAMES:
                    kw.update(origin=k(nm[0]), dev=k(nm[1]), value=k(nm[2]))
                return s.call("trikit.triangle." + c, s.data, **kw)
            yield (tt, "incr", "class", nm), op(W, lab, None, go3, "build")


def package_ops(W):
    """module-level functions on the sample data"""
    yield op(W, "get_datasets()", None, lambda s: s.call("trikit.get_datasets"), "data")
    names = dataset_names(W)
    for n in names:
        for tt in (None, "cum", "incr"):
            kw = {} if tt is None else {"tri_type": k(tt)}
            yield op(W, "load(%s%s)" % (n, "" if tt is None else ", " + tt), None, lambda s: s.call("trikit.load", k(n), **kw), "data")
    for kw in ({}, {"tri_type": k("cum")}, {"tri_type": k("incr"), "loss_type": k("paid")}, {"lob": NONE, "grcode": NONE},
               {"train_only": FALSE}, {"grname": Sc(Cell(dt="str"))}):
        yield op(W, "load_lrdb(%s)" % ", ".join(kw), None, lambda s: s.call("trikit.load_lrdb", **kw), "lrdb")
    yield op(W, "get_lrdb_lobs()", None, lambda s: s.call("trikit.get_lrdb_lobs"), "lrdb")
    yield op(W, "get_lrdb_specs()", None, lambda s: s.call("trikit.get_lrdb_specs"), "lrdb")


def dataset_names(W):
    """keys of trikit.dataref, lrdb aside, as the analysis sees them"""
    s = W.scn("dataref")
    v = s.pub("trikit.dataref")
    o = s.obj(v)
    if isinstance(o, Dct):
        return [x for x in o.items if isinstance(x, str) and x != "lrdb"]
    return []


def sweep(W, custom=False, exhibits=True, results=True, short=False):
    """the whole surface; with custom=True on a triangle built from custom names"""
    nm = CUSTOM if custom else NAMES
    tag = "custom names: " if custom else ""
    if not custom:
        for key, o in constructions(W):
            yield o
        for o in package_ops(W):
            yield o
    for tt in ("cum", "incr"):
        try:
            b, tri = W.tri(tag + "build " + tt, tri_type=tt, names=nm)
        except Failed as e:
            o = Op(tag + "build " + tt, W.scn(tag + "build " + tt), None, e, "build")
            yield o
            continue
        lab = tag + ("cum triangle" if tt == "cum" else "incr triangle")
        for o in member_ops(W, b.st, tri, lab):
            yield o
        if tt == "incr":
            x = op(W, tag + "incr.to_cum()", b.st, lambda s: s.meth(tri, "to_cum"), "meth", ref=tri, member="to_cum")
            if x.failed is None and isinstance(x.r, Ref):
                for o in member_ops(W, x.s.st, x.r, tag + "incr.to_cum()"):
                    yield o
            continue
        cls = W.cls_of(b, tri)
        x = op(W, tag + "cum.to_incr()", b.st, lambda s: s.meth(tri, "to_incr"), "meth", ref=tri, member="to_incr")
        if x.failed is None and isinstance(x.r, Ref):
            for o in member_ops(W, x.s.st, x.r, tag + "cum.to_incr()"):
                yield o
        done = set()
        for w, wrapper, vn, o in estimates(W, b.st, tri, tag):
            yield o
            if o.failed is None and results and wrapper and isinstance(o.r, Ref) and vn in RESULT_VARIANTS[w]:
                for r in member_ops(W, o.s.st, o.r, "%s%s(%s) result" % (tag, w, vn)):
                    yield r


RESULT_VARIANTS = {"base": ("", "sel=Series, tail=1.1"), "mack": ("", "alpha=2, dist=norm"), "boot": ("", "parametric", "two_sided")}
