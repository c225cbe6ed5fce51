"""One decision procedure per property: abstract histories plus the rule that judges them."""
import os
from .world import *
from .report import Report
from . import terms as T
from .interp import AnalysisError

RULES = {}


def prop(pid):
    def deco(f):
        RULES[pid] = f
        return f
    return deco


LABELS = ("label-arith", "label-compare", "label-pos", "misalign")
BROKEN = ("unbound", "undefined", "missing-attr", "missing-name", "missing-col", "missing-key", "bad-call", "bad-unpack",
          "bad-index", "type-error")


def attempt(rep, rule, W, s, fn, label):
    """run one abstract operation; a run that always raises leaves the obligation open (C09 judges it)"""
    try:
        return fn()
    except Failed as e:
        W.failures.append((label, s, e))
        rep.unk(rule, label, "every abstract path raises: " + "; ".join(sorted({"%s in %s" % (x.typ, x.func) for x in e.excs})))
        return None


def is_exhibit(events):
    return any(e.kind == "import" and e.data.get("name", "").split(".")[0] in ("matplotlib", "seaborn") for e in events)


def surface(rep, rule, W, s, ref, label, kwargs=None, exhibits=True, refs=("q",)):
    """every public attribute and method of an object, each on its own copy of the history"""
    cls = W.cls_of(s, ref)
    if cls is None:
        rep.unk(rule, label, "class of the object is unknown")
        return
    for m in W.props(cls):
        x = W.scn("%s.%s" % (label, m), s.st)
        r = attempt(rep, rule, W, x, lambda: x.attr(ref, m), "%s.%s" % (label, m))
        if r is not None:
            yield m, "prop", x, r
    for m, req in W.methods(cls):
        x = W.scn("%s.%s()" % (label, m), s.st)
        kw = W.default_args(x, req)
        if kw is None:
            rep.unk(rule, "%s.%s()" % (label, m), "required parameters unknown to the analysis")
            continue
        r = attempt(rep, rule, W, x, lambda: x.meth(ref, m, **kw), "%s.%s()" % (label, m))
        if r is not None:
            yield m, "meth", x, r
    for m in ("__str__", "__repr__"):
        if W.I.find_member(cls, m) is not None:
            x = W.scn("%s.%s()" % (label, m), s.st)
            r = attempt(rep, rule, W, x, lambda: x.meth(ref, m), "%s.%s()" % (label, m))
            if r is not None:
                yield m, "meth", x, r


def builds():
    for tt in ("cum", "incr"):
        for df in ("incr", "cum"):
            for sh in ("tabular", "triangle"):
                yield tt, df, sh


# ------------------------------------------------------------------ C01
@prop("C01")
def c01(rep, W):
    R = "no-argument-mutation"
    rep.rule(R, "no statement reachable from a public operation stores into, resizes or renames an object that came in as an argument "
                "(or into storage that a view shares with it)")
    I = W.I

    def judge(s, label):
        n = 0
        for e in s.events():
            if e.kind == "mutation":
                own = [o for o in e.data["owner"] if o.startswith("arg:")]
                if own:
                    n += 1
                    rep.event(R, e, "%s: the caller's %s is modified (%s)" % (label, own[0][4:], e.msg), "%s modifies the caller's %s" % (e.func, own[0][4:]))
        if not n:
            rep.ok(R, label, "%d events" % len(s.events()))

    for tt, df, sh in builds():
        for names in (NAMES, CUSTOM):
            if sh == "triangle" and names is CUSTOM:
                continue
            label = "totri(%s, tri_type=%s, data_format=%s, names=%s)" % (sh, tt, df, names is NAMES and "default" or "custom")
            s = W.scn(label)
            try:
                s, t = W.tri(label, tri_type=tt, data_format=df, shape=sh, names=names, owner=("arg:data",), extra=("lob",) if sh == "tabular" else ())
            except Failed as e:
                W.failures.append((label, s, e))
                rep.unk(R, label, "construction always raises")
                continue
            s.mark = 0
            judge_since(rep, R, W, s, label, judge)
    for c in ("CumTriangle", "IncrTriangle"):
        label = "%s(data)" % c
        s = W.scn(label)
        d = s.tabular(owner=("arg:data",), extra=("lob",))
        if attempt(rep, R, W, s, lambda: s.call("trikit.triangle." + c, d), label) is not None:
            judge(s, label)
        label = "%s(data, names)" % c
        s = W.scn(label)
        d = s.tabular(owner=("arg:data",), extra=("lob",), names=CUSTOM)
        if attempt(rep, R, W, s, lambda: s.call("trikit.triangle." + c, d, origin=k(CUSTOM[0]), dev=k(CUSTOM[1]), value=k(CUSTOM[2])), label) is not None:
            judge(s, label)
    b, tri = W.tri()
    num = Cell(dim=D0, dt="num")
    qcell = Cell(dim=D0, dt="num")
    sels = {
        "Series": lambda s: s.ser(num, DLAB.w(rep="[None:-1]"), owner=("arg:sel",)),
        "list": lambda s: s.manylst(num, owner=("arg:sel",)),
        "array": lambda s: s.arr(num, owner=("arg:sel",)),
    }
    qs = {
        "list": lambda s: s.lst([k(x) for x in Q], owner=("arg:q",)),
        "array": lambda s: s.arr(qcell, owner=("arg:q",)),
        "tuple": lambda s: s.lst([k(x) for x in Q], owner=("arg:q",), kind="tuple"),
    }
    for wrapper in (True, False):
        for nm, mk in sels.items():
            for tl in ({}, {"tail": k(1.05)}):
                label = "%s(sel=%s%s)" % ("base_cl" if wrapper else "BaseChainLadder", nm, ", tail" if tl else "")
                s = W.scn(label, b.st)
                if attempt(rep, R, W, s, lambda: W.estimate(s, tri, "base", wrapper, sel=mk(s), **tl), label) is not None:
                    judge(s, label)
        for w in ("mack", "boot"):
            for nm, mk in qs.items():
                for ts in (False, True):
                    label = "%s(q=%s, two_sided=%s)" % (ESTIMATORS[w][0 if wrapper else 1].split(".")[-1], nm, ts)
                    s = W.scn(label, b.st)
                    if attempt(rep, R, W, s, lambda: W.estimate(s, tri, w, wrapper, q=mk(s), two_sided=k(ts)), label) is not None:
                        judge(s, label)
    # result methods with arguments
    for w in ESTIMATORS:
        s0 = W.scn("result", b.st)
        res = attempt(rep, R, W, s0, lambda: W.estimate(s0, tri, w), w + " result")
        if res is None:
            continue
        cls = W.cls_of(s0, res)
        for m, req in W.methods(cls):
            fi = I.find_member(cls, m)
            params = fi.pos[1:] + fi.kwonly
            if "q" in params:
                for nm, mk in qs.items():
                    if m == "plot" and nm != "list":
                        continue
                    label = "%s.%s(q=%s)" % (w, m, nm)
                    s = W.scn(label, s0.st)
                    if attempt(rep, R, W, s, lambda: s.meth(res, m, q=mk(s)), label) is not None:
                        judge(s, label)
            for p in params:
                if p.endswith("kws"):
                    label = "%s.%s(%s=dict)" % (w, m, p)
                    s = W.scn(label, s0.st)
                    n = 2 if w == "base" else 4
                    lst = s.lst([k("o")] * n, owner=("arg:%s[...]" % p,))
                    d = s.dct({"marker": lst}, owner=("arg:" + p,))
                    if attempt(rep, R, W, s, lambda: s.meth(res, m, **{p: d}), label) is not None:
                        judge(s, label)
            if fi.kwarg:
                label = "%s.%s(**options)" % (w, m)
                s = W.scn(label, s0.st)
                lst = s.lst([k(9), k(9)], owner=("arg:figsize",))
                if attempt(rep, R, W, s, lambda: s.meth(res, m, figsize=lst), label) is not None:
                    judge(s, label)
    # selections handed to the triangle
    cls = W.cls_of(b, tri)
    m = I.find_member(cls, "a2aind")
    if m is not None and m.setter is not None:
        label = "triangle.a2aind = [origin, dev, 0]"
        s = W.scn(label, b.st)
        lst = s.lst([Sc(OLAB), Sc(DLAB), k(0)], owner=("arg:selection",))

        def go():
            s.run(lambda: I.setattr(tri, "a2aind", lst, None, s.st))
            return TRUE
        if attempt(rep, R, W, s, go, label) is not None:
            judge(s, label)


def judge_since(rep, R, W, s, label, judge):
    """judge only the events of this history (the scenario object was rebuilt inside W.tri)"""
    class V:
        def events(self):
            return [e for e in s.I.events if e.scen == label]
    judge(V(), label)


# ------------------------------------------------------------------ C02
@prop("C02")
def c02(rep, W):
    R = "no-published-mutation"
    rep.rule(R, "no query, conversion, estimate, exhibit or test stores into a triangle's cells or tables, or into a table published by a "
                "result, or rebinds one of their public attributes (private memo slots may be filled)")
    I = W.I

    def judge(evs, label, tag):
        n = 0
        for e in evs:
            if e.kind == "mutation":
                own = [o for o in e.data["owner"] if o.startswith(tag)]
                if own:
                    n += 1
                    rep.event(R, e, "%s modifies %s (%s)" % (label, own[0], e.msg), "%s modifies %s" % (e.func, own[0]))
            elif e.kind == "attr-store" and not e.data.get("private"):
                own = [o for o in e.data["owner"] if o.startswith(tag)]
                if own:
                    n += 1
                    rep.event(R, e, "%s rebinds %s.%s" % (label, own[0], e.data["attr"]), "%s rebinds %s.%s" % (e.func, own[0], e.data["attr"]))
        if not n:
            rep.ok(R, label)

    for tt, warm in (("cum", False), ("cum", True), ("incr", False)):
        b, tri = W.tri("build-%s" % tt, tri_type=tt)
        name = "triangle" if tt == "cum" else "incremental triangle"
        if warm:    # every memo slot filled, so that cached tables are watched as well
            cls = W.cls_of(b, tri)
            for m in W.props(cls):
                x = W.scn("warm", b.st)
                try:
                    x.attr(tri, m)
                    b.st = x.st
                except Failed:
                    pass
            x = W.scn("warm", b.st)
        W.own(b, tri, name)
        for m, kind, x, r in surface(rep, R, W, b, tri, name + (" (memoised)" if warm else "")):
            judge(x.events(), x.label, name)
        if tt == "cum":
            for w in ESTIMATORS:
                variants = [("", {})]
                if w == "base":
                    variants += [("sel=Series", "ser"), ("sel=all-simple", {"sel": k("all-simple")}), ("tail", {"tail": k(1.1)})]
                if w == "boot":
                    variants += [("parametric", {"parametric": TRUE}), ("two-sided", {"two_sided": TRUE})]
                if w == "mack":
                    variants += [("norm", {"dist": k("norm")}), ("alpha=2", {"alpha": k(2)})]
                for vn, kw in variants:
                    x = W.scn("%s(%s)%s" % (w, vn, " memoised" if warm else ""), b.st)
                    if kw == "ser":
                        kw = {"sel": x.ser(Cell(dim=D0, dt="num"), DLAB.w(rep="[None:-1]"))}
                    res = attempt(rep, R, W, x, lambda: W.estimate(x, tri, w, **kw), x.label)
                    if res is None:
                        continue
                    judge(x.events(), x.label, name)
                    rn = "%s result" % w
                    W.own(x, res, rn)
                    # the triangle's own tables stay the triangle's
                    for m, kind, y, r in surface(rep, R, W, x, res, "%s(%s) result%s" % (w, vn, " memoised" if warm else "")):
                        judge(y.events(), y.label, rn)
                        judge(y.events(), y.label + " on the triangle", name)
                    # all methods in sequence on one result: caches filled by one watched by the next
                    if not vn:
                        y = W.scn("%s result, all methods in turn" % w, x.st)
                        W.own(y, res, rn)
                        cls = W.cls_of(y, res)
                        for rounds in (1, 2):
                            for m, req in W.methods(cls):
                                kw2 = W.default_args(y, req)
                                if kw2 is None:
                                    continue
                                try:
                                    y.meth(res, m, **kw2)
                                except Failed:
                                    continue
                                W.own(y, res, rn)
                            for m in W.props(cls):
                                try:
                                    y.attr(res, m)
                                except Failed:
                                    continue
                                W.own(y, res, rn)
                        judge(y.events(), y.label, rn)
                        judge(y.events(), y.label + " on the triangle", name)
