"""Rules about flow between operations: C03 C04 C05 C06 C14."""
from .rules import *
from .sweep import *
from .rules_form import selection
from .world import World
from .rules_sweep import signature, sigdiff, swept, why, failsite

MUTABLE = (Frame, Ser, Arr, Dct, Inst)


def tagged(c, *t):
    """scalar constant carrying a marker"""
    return Sc(k(c).cell.w(tags=k(c).cell.tags | frozenset(t)))


def is_mutable(o):
    return isinstance(o, MUTABLE) or isinstance(o, Seq) and o.kind in ("list", "set", "deque")


# ------------------------------------------------------------------ C03
H = "h1"
HISTORY = {
    "base": [{"sel": lambda s: tagged("all-simple", H), "tail": lambda s: tagged(1.3, H)},
             {"sel": lambda s: s.ser(Cell({H}, dim=D0, dt="num"), DLAB.w(rep="[None:-1]"))}],
    "mack": [{"alpha": lambda s: tagged(2, H), "dist": lambda s: tagged("norm", H), "q": lambda s: s.lst([tagged(0.6, H)]), "two_sided": lambda s: tagged(True, H)}],
    "boot": [{"sims": lambda s: tagged(7, H), "q": lambda s: s.lst([tagged(0.6, H)]), "parametric": lambda s: tagged(True, H),
              "two_sided": lambda s: tagged(True, H), "interpolation": lambda s: tagged("midpoint", H), "random_state": lambda s: tagged(7, H)}],
}
PROBE = {"base": [{}, {"tail": k(1.05)}], "mack": [{}], "boot": [{"random_state": k(516)}]}


@prop("C03")
def c03(rep, W):
    R1, R2, R3 = "history-independent", "nothing-shared", "triangles-independent"
    rep.rule(R1, "the abstract result of an operation is the same on a fresh object and after other operations with other arguments ran on it, and carries "
                 "no value of those arguments")
    rep.rule(R2, "the results of two calls, and a result and the default or given arguments, have no mutable object in common (the triangle itself excepted)")
    rep.rule(R3, "no value of one triangle reaches a result of another")
    b, tri = W.tri()

    def strip(v):
        return v

    def compare_(lab, construct, fresh, after, marker, rule):
        if fresh.failed is not None:
            rep.unk(rule, lab, "the operation itself fails in the analysis")
            return
        if after.failed is not None:
            x = after.failed.excs[0] if after.failed.excs else None
            rep.bad(rule, construct, "%s: fails after the earlier operations (%s)" % (lab, why(after.failed)), ("", x.func, x.line) if x else None, lab)
            return
        t = leak(after.s, after.r, marker)
        if t:
            rep.bad(rule, construct, "%s: %s carries a value of an earlier call's arguments" % (lab, t), None, lab)
            return
        d = sigdiff(deepsig(fresh.s, fresh.r), deepsig(after.s, after.r))
        if d:
            rep.bad(rule, construct, "%s: the result differs from the one on a fresh object at %s" % (lab, d), None, lab)
        else:
            rep.ok(rule, lab)

    def leak(s, v, marker):
        """path of the first field that carries the marker"""
        for oid, path in W.reach(s, v, skip={tri.oid}).items():
            for c in s.st.heap[oid].cells():
                if c is not None and marker in c.tags:
                    return "result%s" % path
            o = s.st.heap[oid]
            if isinstance(o, (Inst, Frame)):
                for a, x in o.attrs.items():
                    if isinstance(x, Sc) and marker in x.cell.tags:
                        return "result%s.%s" % (path, a)
        if isinstance(v, Sc) and marker in v.cell.tags:
            return "the result"
        return None

    def deepsig(s, v):
        return signature(s, v, NAMES, 3)

    def calls(w, wrapper):
        for i, kw in enumerate(PROBE[w]):
            yield "%s#%d" % (ESTIMATORS[w][0 if wrapper else 1].split(".")[-1], i), kw

    # every operation, fresh
    hist = W.scn("history", b.st)
    for w in ESTIMATORS:
        for kw in HISTORY[w]:
            for wrapper in (True, False):
                x = op(W, "history %s" % w, hist.st, lambda s: W.estimate(s, tri, w, wrapper, **opts(s, kw)), "estimate")
                if x.failed is None:
                    hist.st = x.s.st
    cls = W.cls_of(b, tri)
    for m, kw in (("to_tbl", {"dropna": tagged(False, H)}), ("diagonal", {"offset": tagged(1, H)}), ("a2a_avgs", {}), ("to_incr", {})):
        if W.I.find_member(cls, m) is not None:
            x = op(W, "history %s" % m, hist.st, lambda s: s.meth(tri, m, **kw), "meth")
            if x.failed is None:
                hist.st = x.s.st
    for m in W.props(cls):
        x = op(W, "history %s" % m, hist.st, lambda s: s.attr(tri, m), "prop")
        if x.failed is None:
            hist.st = x.s.st
    for w in ESTIMATORS:
        for wrapper in (True, False):
            for lab, kw in calls(w, wrapper):
                go = lambda s: W.estimate(s, tri, w, wrapper, **kw)
                compare_(lab + " after other estimates", "%s keeps values of earlier calls" % ESTIMATORS[w][0], op(W, lab, b.st, go, "e"), op(W, lab + " after history", hist.st, go, "e"), H, R1)
    for m in W.props(cls):
        compare_("triangle." + m, "triangle.%s depends on earlier calls" % m, op(W, m, b.st, lambda s: s.attr(tri, m), "p"),
                 op(W, m + " after history", hist.st, lambda s: s.attr(tri, m), "p"), H, R1)
    for m, req in W.methods(cls):
        if m in ("base_cl", "mack_cl", "boot_cl") or req:
            continue
        go = lambda s: s.meth(tri, m)
        f = op(W, m, b.st, go, "m")
        if f.exhibit or f.failed is not None:
            continue
        compare_("triangle.%s()" % m, "triangle.%s depends on earlier calls" % m, f, op(W, m + " after history", hist.st, go, "m"), H, R1)
    # one estimator object used twice
    for w in ESTIMATORS:
        s0 = op(W, ESTIMATORS[w][1], b.st, lambda s: s.call(ESTIMATORS[w][1], tri), "c")
        if s0.failed is not None:
            continue
        est = s0.r
        cur = s0.s
        for kw in HISTORY[w]:
            x = op(W, "reuse", cur.st, lambda s: s.call(est, **opts(s, kw)), "e")
            if x.failed is None:
                cur = x.s
        for i, kw in enumerate(PROBE[w]):
            go = lambda s: s.call(est, **kw)
            compare_("%s reused #%d" % (ESTIMATORS[w][1].split(".")[-1], i), "%s keeps values of its earlier call" % ESTIMATORS[w][1].split(".")[-1],
                     op(W, "fresh", s0.s.st, go, "e"), op(W, "reused", cur.st, go, "e"), H, R1)
    # one result queried twice
    for w in ESTIMATORS:
        r0 = op(W, w + " result", b.st, lambda s: W.estimate(s, tri, w), "e")
        if r0.failed is not None:
            continue
        res = r0.r
        rc = W.cls_of(r0.s, res)
        cur = r0.s
        for m, req in W.methods(rc):
            fi = W.I.find_member(rc, m)
            kw = {}
            for p in fi.pos[1:] + fi.kwonly:
                if p == "q":
                    kw[p] = lambda s: s.lst([tagged(0.6, H), tagged(0.7, H)])
                elif p == "p":
                    kw[p] = lambda s: tagged(0.2, H)
                elif p == "lb":
                    kw[p] = lambda s: tagged(5, H)
                elif p == "interpolation":
                    kw[p] = lambda s: tagged("lower", H)
            for j in (0, 1):
                x = op(W, "history", cur.st, lambda s: s.meth(res, m, **opts(s, kw)), "m")
                if x.failed is None:
                    cur = x.s
        for m, req in W.methods(rc):
            def go(s):
                return s.meth(res, m, **W.default_args(s, req))
            if W.default_args(r0.s, req) is None:
                continue
            f = op(W, m, r0.s.st, go, "m")
            if f.exhibit or f.failed is not None:
                continue
            compare_("%s result.%s()" % (w, m), "result.%s depends on earlier calls" % m, f, op(W, m + " after history", cur.st, go, "m"), H, R1)
        for m in W.props(rc):
            compare_("%s result.%s" % (w, m), "result.%s depends on earlier calls" % m, op(W, m, r0.s.st, lambda s: s.attr(res, m), "p"),
                     op(W, m + " after history", cur.st, lambda s: s.attr(res, m), "p"), H, R1)

    # sharing
    def shared(lab, st, fn, fn2=None, skip=()):
        x = op(W, lab, st, fn, "e")
        if x.failed is not None or not isinstance(x.r, (Ref, Un)):
            return
        y = op(W, lab + " again", x.s.st, fn2 or fn, "e")
        if y.failed is not None:
            return
        skip = set(skip) | {tri.oid}
        r1 = W.reach(y.s, x.r, skip)
        r2 = W.reach(y.s, y.r, skip)
        hits = 0
        for oid in r2:
            o = y.s.st.heap[oid]
            if not is_mutable(o):
                continue
            if oid in r1:
                hits += 1
                rep.bad(R2, "%s: result%s shared by separate calls" % (lab.split("(")[0], r2[oid]), "%s: two calls publish the same %s (result%s)" % (lab, type(o).__name__, r2[oid] or " itself"), o.site, lab)
            elif "shared" in o.owner:
                hits += 1
                rep.bad(R2, "%s: result%s is a default argument or module object" % (lab.split("(")[0], r2[oid]),
                        "%s: result%s is an object that outlives the call (a default argument, class or module object)" % (lab, r2[oid]), o.site, lab)
            elif any(str(w).startswith("arg:") for w in o.owner):
                hits += 1
                rep.bad(R2, "%s: result%s is the caller's argument" % (lab.split("(")[0], r2[oid]), "%s: result%s is the very object the caller passed" % (lab, r2[oid]), o.site, lab)
        if not hits:
            rep.ok(R2, lab, "%d reachable objects" % len(r2))

    num = Cell(dim=D0, dt="num")
    qarg = {"q=list": {"q": lambda s: s.lst([k(x) for x in Q], owner=("arg:q",))}, "q=array": {"q": lambda s: s.arr(num, owner=("arg:q",))}}
    variants = {"base": {"": {}, "sel=Series": {"sel": lambda s: s.ser(num, DLAB.w(rep="[None:-1]"), owner=("arg:sel",))},
                         "sel=list": {"sel": lambda s: s.manylst(num, owner=("arg:sel",))}, "sel=array": {"sel": lambda s: s.arr(num, owner=("arg:sel",))}},
                "mack": dict({"": {}}, **qarg), "boot": dict({"": {}, "parametric": {"parametric": TRUE}}, **qarg)}
    for w in ESTIMATORS:
        for vn, kw in variants[w].items():
            for wrapper in (True, False):
                lab = "%s(%s)" % (ESTIMATORS[w][0 if wrapper else 1].split(".")[-1], vn)
                shared(lab, b.st, lambda s: W.estimate(s, tri, w, wrapper, **opts(s, kw)))
        s0 = op(W, ESTIMATORS[w][1], b.st, lambda s: s.call(ESTIMATORS[w][1], tri), "c")
        if s0.failed is None:
            shared("reused %s()" % ESTIMATORS[w][1].split(".")[-1], s0.s.st, lambda s: s.call(s0.r))
        r0 = op(W, w + " result", b.st, lambda s: W.estimate(s, tri, w), "e")
        if r0.failed is None:
            rc = W.cls_of(r0.s, r0.r)
            for m, req in W.methods(rc):
                def go(s):
                    return s.meth(r0.r, m, **W.default_args(s, req))
                if W.default_args(r0.s, req) is not None:
                    shared("%s result.%s()" % (w, m), r0.s.st, go, skip=set())
    for st, t, n in ((b.st, tri, "triangle"),):
        for m, req in W.methods(cls):
            if m in ("base_cl", "mack_cl", "boot_cl") or req:
                continue
            shared("%s.%s()" % (n, m), st, lambda s: s.meth(t, m))
    try:
        bi, ti = W.tri("incr", tri_type="incr")
        for m, req in W.methods(W.cls_of(bi, ti)):
            if not req:
                shared("incr triangle.%s()" % m, bi.st, lambda s: s.meth(ti, m), skip={ti.oid})
    except Failed:
        pass
    shared("get_datasets()", None, lambda s: s.call("trikit.get_datasets"))
    from .rules_options import dataset_names
    for j, ds in enumerate(dataset_names(W) or ()):
        for tt in (None, "cum", "incr")[:1 if j else 3]:
            shared("load(%r, tri_type=%s)" % (ds, tt), None, lambda s: s.call("trikit.load", k(ds), tri_type=k(tt)))
    d0 = W.scn("table")
    d = d0.tabular(owner=("arg:data",))
    for tt in ("cum", "incr"):
        shared("totri(table, tri_type=%s)" % tt, d0.st, lambda s: s.call("trikit.totri", d, tri_type=k(tt)))
    df = d0.triframe(owner=("arg:data",))
    for tt in ("cum", "incr"):
        for fm in ("incr", "cum"):
            shared("totri(frame, tri_type=%s, data_format=%s)" % (tt, fm), d0.st,
                   lambda s: s.call("trikit.totri", df, tri_type=k(tt), data_format=k(fm), data_shape=k("triangle")))

    # two triangles in one process
    T1 = "t1"
    s1, t1 = W.tri("first triangle", tags=frozenset([T1]))
    cur = s1
    for w in ESTIMATORS:
        for wrapper in (True, False):
            x = op(W, "first triangle " + w, cur.st, lambda s: W.estimate(s, t1, w, wrapper), "e")
            if x.failed is None:
                cur = x.s
    for m in W.props(W.cls_of(s1, t1)):
        x = op(W, "first triangle " + m, cur.st, lambda s: s.attr(t1, m), "p")
        if x.failed is None:
            cur = x.s
    lab = "second triangle"
    s2 = W.scn(lab, cur.st)
    d = s2.tabular()
    x = op(W, lab, s2.st, lambda s: s.call("trikit.totri", d), "b")

    def foreign(lab, o):
        if o.failed is not None:
            rep.unk(R3, lab, "fails in the analysis")
        elif T1 in deep_tags(o.s, o.r):
            rep.bad(R3, lab, "%s carries amounts of another triangle" % lab, None, lab)
        else:
            rep.ok(R3, lab)
    foreign(lab, x)
    if x.failed is None:
        t2 = x.r
        for w in ESTIMATORS:
            for wrapper in (True, False):
                foreign("second triangle: %s" % ESTIMATORS[w][0 if wrapper else 1].split(".")[-1],
                        op(W, "second triangle " + w, x.s.st, lambda s: W.estimate(s, t2, w, wrapper), "e"))
        c2 = W.cls_of(x.s, t2)
        for m in W.props(c2) if c2 else ():
            foreign("second triangle: ." + m, op(W, m, x.s.st, lambda s: s.attr(t2, m), "p"))
        for m, req in W.methods(c2) if c2 else ():
            if not req and m not in ("base_cl", "mack_cl", "boot_cl", "glm", "plot"):
                foreign("second triangle: %s()" % m, op(W, m, x.s.st, lambda s: s.meth(t2, m), "m"))


# ------------------------------------------------------------------ C04
@prop("C04")
def c04(rep, W):
    R = "exclusion-flows"
    rep.rule(R, "after any earlier query or estimate, a changed entry of the link-ratio selection flows into every average row, every deterministic "
                "chain ladder (each selection of factors) and every Mack estimate, for a new and for a reused estimator")
    b, tri = W.tri()
    X = "excl"
    full = rep.tier == "thorough"
    cls = W.cls_of(b, tri)

    def warm(st, ests=()):
        s = W.scn("warm", st)
        for m in W.props(cls):
            x = op(W, "warm " + m, s.st, lambda s: s.attr(tri, m), "p")
            if x.failed is None:
                s.st = x.s.st
        x = op(W, "warm a2a_avgs", s.st, lambda s: s.meth(tri, "a2a_avgs"), "m")
        if x.failed is None:
            s.st = x.s.st
        for w in ("base", "mack", "boot"):
            x = op(W, "warm " + w, s.st, lambda s: W.estimate(s, tri, w), "e")
            if x.failed is None:
                s.st = x.s.st
        for e in ests:
            x = op(W, "warm estimator", s.st, lambda s: s.call(e), "e")
            if x.failed is None:
                s.st = x.s.st
        return s

    def edit_in_place(s):
        v = s.attr(tri, "a2aind")
        o = s.obj(v)
        if not isinstance(o, Frame):
            return False
        o = s.st.mut(v.oid)
        mark = lambda c: c.w(tags=c.tags | {X})
        if o.rest is not None:
            o.rest = o.rest.map(mark)
        for c in list(o.cols):
            o.cols[c] = o.cols[c].map(mark)
        return True

    def edit_by_setter(s):
        m = W.I.find_member(cls, "a2aind")
        if m is None or m.setter is None:
            return False
        lst = s.lst([Sc(OLAB), Sc(DLAB), Sc(Cell({X}, const=0, dim=D0, dt="num"))])
        s.run(lambda: W.I.setattr(tri, "a2aind", lst, None, s.st) or TRUE)
        return True

    def judge(lab, construct, s, v, fields=None):
        if v is None:
            return
        cells = []
        o = s.obj(v)
        if isinstance(o, (Ser, Col)):
            cells = [("", o.cell)] + [("[%s]" % a, c) for a, c in o.special.items()]
        elif isinstance(o, Frame):
            for a, c in list(o.cols.items()) + ([("*", o.rest)] if o.rest is not None else []):
                if fields is not None and a not in fields:
                    continue
                if fields is None:
                    cells += [("[%s]" % x, y) for x, y in c.special.items()] or [("[%s]" % a, c.cell)]
                else:
                    cells.append(("[%r]" % a, c.cell))
                    cells += [("[%r, %r]" % (a, x), y) for x, y in c.special.items() if x == "total"]
        if not cells:
            rep.unk(R, lab, "value not tracked")
        for sub, c in cells:
            if c is None or c.const is not NOC and sub.startswith("["):
                continue
            inst = "%s%s" % (lab, sub)
            if X in c.tags:
                rep.ok(R, inst)
            elif UNKTAG in c.tags or c.dt is None and c.dim is None:
                rep.unk(R, inst, "value not tracked")
            else:
                rep.bad(R, "%s%s ignores exclusions" % (construct, sub), "%s%s does not depend on the changed link-ratio selection" % (lab, sub), None, lab)

    ests = {}
    st0 = b.st
    for w in ("base", "mack"):
        x = op(W, "estimator", st0, lambda s: s.call(ESTIMATORS[w][1], tri), "c")
        if x.failed is None:
            ests[w], st0 = x.r, x.s.st
    for wn, st in (("fresh", st0), ("after earlier use", warm(st0, ests.values()).st)):
        for en, edit in (("edited in place", edit_in_place), ("set", edit_by_setter)):
            s = W.scn("selection %s, %s" % (en, wn), st)
            try:
                if not edit(s):
                    rep.unk(R, s.label, "selection table not tracked")
                    continue
            except Failed as e:
                W.failures.append((s.label, s, e))
                rep.unk(R, s.label, "changing the selection fails in the analysis: " + why(e))
                continue
            x = op(W, s.label + ": a2a_avgs()", s.st, lambda s: s.meth(tri, "a2a_avgs"), "m")
            if x.failed is None:
                judge(x.label, "a2a_avgs", x.s, x.r)
            for sel in ("all-weighted", "all-simple", "all-geometric", "all-medial", "weighted-3", "simple-5", "medial-5", "geometric-2"):
                for wrapper in (True, False, None):
                    if wrapper is None and "base" not in ests:
                        continue
                    if not full and (wrapper is False and sel != "all-weighted" or wrapper is None and sel not in ("all-weighted", "simple-5")
                                     or wn != "fresh" and wrapper and sel not in ("all-weighted", "medial-5")):
                        continue
                    lab = "%s: %s(sel=%s)" % (s.label, {True: "base_cl", False: "BaseChainLadder", None: "reused BaseChainLadder"}[wrapper], sel)
                    go = (lambda s: s.call(ests["base"], sel=k(sel))) if wrapper is None else (lambda s: W.estimate(s, tri, "base", wrapper, sel=k(sel)))
                    x = op(W, lab, s.st, go, "e")
                    if x.failed is None and isinstance(x.r, Ref):
                        for f in ("ldfs", "cldfs", "ultimate"):
                            judge("%s.%s" % (lab, f), "base_cl.%s" % f, x.s, W.field(x.s, x.r, f))
                        judge(lab + ".summary", "base_cl.summary", x.s, W.field(x.s, x.r, "summary"), ("cldf", "ultimate", "reserve"))
            for vn, kw in (("", {}), ("alpha=2", {"alpha": k(2)}), ("alpha=0", {"alpha": k(0)}), ("dist=norm", {"dist": k("norm")})):
                for wrapper in (True, False, None):
                    if wrapper is None and "mack" not in ests:
                        continue
                    if not full and (wrapper is False and vn or wrapper is None and vn not in ("", "alpha=0") or en == "set" and wrapper and vn):
                        continue
                    lab = "%s: %s(%s)" % (s.label, {True: "mack_cl", False: "MackChainLadder", None: "reused MackChainLadder"}[wrapper], vn)
                    go = (lambda s: s.call(ests["mack"], **kw)) if wrapper is None else (lambda s: W.estimate(s, tri, "mack", wrapper, **kw))
                    x = op(W, lab, s.st, go, "e")
                    if x.failed is None and isinstance(x.r, Ref):
                        for f in ("ldfs", "cldfs", "ultimate", "devpvar", "ldfvar", "process_error", "parameter_error", "std_error"):
                            judge("%s.%s" % (lab, f), "mack_cl.%s" % f, x.s, W.field(x.s, x.r, f))
                        judge(lab + ".summary", "mack_cl.summary", x.s, W.field(x.s, x.r, "summary"), ("cldf", "ultimate", "reserve", "std_error", "cv", "75%", "95%"))


    # every aggregate of amounts behind a published factor or its variance carries the selection as weight
    R2 = "weighted-aggregates"
    rep.rule(R2, "every sum or mean of triangle amounts or link ratios behind a published factor, average or factor variance is taken over cells "
                 "that were combined with the link-ratio selection")
    s = W.scn("weights", b.st)
    o = s.st.mut(tri.oid)
    if o.rest is not None:
        o.rest = o.rest.map(lambda c: c.w(tags=c.tags | {"amt"}))
    v = s.attr(tri, "a2aind")
    o = s.obj(v)
    if not isinstance(o, Frame):
        rep.unk(R2, "selection", "selection table not tracked")
        return
    o = s.st.mut(v.oid)
    mark = lambda c: c.w(tags=(c.tags - {"amt"}) | {"sel"})
    if o.rest is not None:
        o.rest = o.rest.map(mark)
    for c in list(o.cols):
        o.cols[c] = o.cols[c].map(mark)

    def weighted(lab, construct, s, v):
        o = s.obj(v) if isinstance(v, Ref) else v
        cells = []
        if isinstance(o, (Ser, Col)):
            cells = [("", o.cell)]
        elif isinstance(o, Frame):
            cells = [("[%s]" % a if a else "", y) for c in list(o.cols.values()) + ([o.rest] if o.rest is not None else []) for a, y in [("", c.cell)] + list(c.special.items())]
        elif isinstance(o, Cell):
            cells = [("", o)]
        if not [c for _, c in cells if c is not None]:
            rep.unk(R2, lab, "value not tracked")
        for sub, c in cells:
            if c is None:
                continue
            if "unweighted" in c.tags:
                rep.bad(R2, "%s%s unweighted" % (construct, sub), "%s%s depends on a sum of amounts that ignores the link-ratio selection" % (lab, sub), None, lab)
            elif UNKTAG in c.tags or c.dt is None and c.dim is None:
                rep.unk(R2, lab + sub, "value not tracked")
            else:
                rep.ok(R2, lab + sub)

    x = op(W, "a2a_avgs()", s.st, lambda s: s.meth(tri, "a2a_avgs"), "m")
    if x.failed is None:
        weighted(x.label, "a2a_avgs", x.s, x.r)
    for sel in ("all-weighted", "all-simple", "geometric-3", "medial-5", "weighted-3"):
        x = op(W, "base_cl(sel=%s)" % sel, s.st, lambda s: W.estimate(s, tri, "base", sel=k(sel)), "e")
        if x.failed is None and isinstance(x.r, Ref):
            weighted(x.label + ".ldfs", "base_cl.ldfs", x.s, W.field(x.s, x.r, "ldfs"))
    for al in (0, 1, 2):
        x = op(W, "mack_cl(alpha=%d)" % al, s.st, lambda s: W.estimate(s, tri, "mack", alpha=k(al)), "e")
        if x.failed is None and isinstance(x.r, Ref):
            for f in ("ldfs", "devpvar", "ldfvar"):
                weighted("%s.%s" % (x.label, f), "mack_cl." + f, x.s, W.field(x.s, x.r, f))
            sm = W.field(x.s, x.r, "summary")
            sm = x.s.obj(sm) if isinstance(sm, Ref) else None
            for row in (None, "total"):
                col = sm.cols.get("std_error") if isinstance(sm, Frame) else None
                c = (col.cell if row is None else col.special.get(row)) if col is not None else None
                weighted("%s.std_error %s" % (x.label, row or "origin"), "mack_cl.std_error " + (row or "origin"), x.s, c)

    R3 = "selection-in-formulas"
    rep.rule(R3, "Mack's factors, variance parameters, factor variances and the total's covariance term do not differ from the published formulas by the "
                 "link-ratio selection alone")
    W2 = World(W.root)
    rep.worlds.append(W2)
    selection(rep, W2, R3)


# ------------------------------------------------------------------ C05
@prop("C05")
def c05(rep, W):
    R1, R2, R3 = "seeded-draws", "no-other-randomness", "fresh-stream"
    rep.rule(R1, "with a seed or generator supplied, every draw comes from a generator built from it, and nothing else non-deterministic is consulted")
    rep.rule(R2, "no other operation draws, consults an entropy source or touches the process-wide random state")
    rep.rule(R3, "with an integer seed, every call draws from a generator created during that call")
    b, tri = W.tri()
    S = "seed-arg"
    seeds = {
        "516": lambda s: tagged(516, S), "0": lambda s: tagged(0, S), "1": lambda s: tagged(1, S),
        "numpy integer": lambda s: Sc(Cell({S}, dim=D0, dt="npint")),
        "integer": lambda s: Sc(Cell({S}, dim=D0, dt="int")),
        "generator": lambda s: s.new(Rng(src="arg", cell=Cell({S}), owner=frozenset(["arg:random_state"]))),
    }
    bad = ("entropy", "rng-global")

    def judge(lab, s, evs, pre=None):
        n = draws = 0
        for e in evs:
            if e.kind in bad:
                n += 1
                rep.event(R1, e, "%s: %s" % (lab, e.msg), "%s: %s" % (e.func, e.msg))
            elif e.kind == "draw":
                draws += 1
                if S not in e.data["tags"]:
                    n += 1
                    rep.event(R1, e, "%s: %s, not the one supplied" % (lab, e.msg), "%s draws %s" % (e.func, e.data["dist"]))
                elif "rng:entropy" in e.data["tags"] or "rng:maybe-entropy" in e.data["tags"]:
                    n += 1
                    rep.event(R1, e, "%s: the generator can be seeded from the system's entropy although a seed is given" % lab, "%s draws %s" % (e.func, e.data["dist"]))
                elif pre is not None and e.data["oid"] in pre:
                    n += 1
                    rep.event(R3, e, "%s: draws from a generator left over from an earlier call" % lab, "%s reuses a generator" % e.func)
        if not n:
            if draws:
                rep.ok(R1, lab, "%d draws" % draws)
                if pre is not None:
                    rep.ok(R3, lab)
            else:
                rep.unk(R1, lab, "no draw seen")
    base0 = op(W, "unseeded", b.st, lambda s: W.estimate(s, tri, "boot"), "e")
    for sn, mk in seeds.items():
        for par, wrapper, more in [(p, w, {}) for p in (False, True) for w in (True, False)] + [(False, True, {"sims": WHOLE("sims")(None)})]:
            if True:
                lab = "%s(random_state=%s, parametric=%s%s)" % (ESTIMATORS["boot"][0 if wrapper else 1].split(".")[-1], sn, par, ", any number of sims" if more else "")
                s = W.scn(lab, b.st)
                sv = mk(s)
                x = op(W, lab, s.st, lambda s: W.estimate(s, tri, "boot", wrapper, random_state=sv, parametric=k(par), **more), "e")
                if x.failed is not None:
                    fs = failsite(x)
                    if base0.failed is None and fs:
                        rep.bad(R1, "%s fails with a seed" % fs[0], "%s: the call fails with this seed, not without one (%s)" % (lab, fs[2]), fs[1], lab)
                    else:
                        rep.unk(R1, lab, "fails in the analysis: " + why(x.failed))
                    continue
                judge(lab, x.s, x.s.events(), set(s.st.heap) if sn != "generator" else None)
                for f in ("sims_data", "reserve_dist", "summary"):
                    v = W.field(x.s, x.r, f)
                    if v is None:
                        continue
                    t = deep_tags(x.s, v)
                    l2 = lab + "." + f
                    if "rng:entropy" in t or "rng:global" in t:
                        rep.bad(R1, f + " is not reproducible", "%s depends on entropy although a seed is given" % l2, None, lab)
                    else:
                        rep.ok(R1, l2)
                # a second call in the same process
                y = op(W, lab + " again", x.s.st, lambda s: W.estimate(s, tri, "boot", wrapper, random_state=sv, parametric=k(par), **more), "e")
                if y.failed is None:
                    judge(lab + " again", y.s, y.s.events(), set(x.s.st.heap) if sn != "generator" else None)
        # one estimator object, two calls
        e0 = op(W, "estimator", b.st, lambda s: s.call(ESTIMATORS["boot"][1], tri), "c")
        if e0.failed is None:
            s = W.scn("reused", e0.s.st)
            sv = mk(s)
            lab = "reused BootstrapChainLadder(random_state=%s)" % sn
            x = op(W, lab, s.st, lambda s: s.call(e0.r, random_state=sv), "e")
            if x.failed is None:
                y = op(W, lab + " again", x.s.st, lambda s: s.call(e0.r, random_state=sv), "e")
                if y.failed is None:
                    judge(lab, y.s, y.s.events(), set(x.s.st.heap) if sn != "generator" else None)
    for o in sweep(W):
        if o.kind == "estimate" and o.member == "boot":
            continue
        evs = [e for e in o.s.events() if e.kind in bad or e.kind == "draw"]
        for e in evs:
            rep.event(R2, e, "%s: %s" % (o.label, e.msg), "%s: %s" % (e.func, e.msg))
        if not evs:
            rep.ok(R2, o.label)
    evs = [e for e in W.I.events if not e.scen and (e.kind in bad or e.kind == "draw")]
    for e in evs:
        rep.event(R2, e, "importing the package: %s" % e.msg, "%s: %s" % (e.func, e.msg))
    rep.ok(R2, "import trikit")


# ------------------------------------------------------------------ C06
@prop("C06")
def c06(rep, W):
    R1, R2 = "order-independent", "duplicates-add"
    rep.rule(R1, "no value taken from the input table reaches a triangle cell through an operation that depends on the order of the rows")
    rep.rule(R2, "no value taken from the input table reaches a triangle cell through an operation that keeps one of several records of a cell")

    def judge(lab, s, ref):
        o = s.obj(ref)
        if not isinstance(o, Frame):
            rep.unk(R1, lab, "triangle not tracked")
            return
        t = frozenset()
        for c in list(o.cols.values()) + ([o.rest] if o.rest is not None else []):
            t = t | c.cell.tags
            for x in c.special.values():
                t = t | x.tags
        for tag, rule, txt in (("roworder", R1, "depend on the order of the input rows"), ("rowdup", R2, "keep or drop duplicate records instead of adding them up")):
            if tag in t:
                rep.bad(rule, "%s" % lab.split("(")[0] + ": cells " + txt, "%s: the cells %s" % (lab, txt), None, lab)
            elif UNKTAG in t or any(c.cell.dt is None and c.cell.dim is None for c in list(o.cols.values()) + ([o.rest] if o.rest is not None else [])):
                rep.unk(rule, lab, "cells not fully tracked")
            else:
                rep.ok(rule, lab)

    for key, o in constructions(W):
        if key[2] == "triangle":
            continue
        evs = [e for e in o.s.events() if e.kind in ("rowdep",)]
        if o.failed is not None:
            rep.unk(R1, o.label, "fails in the analysis: " + why(o.failed))
        else:
            judge(o.label, o.s, o.r)
            # conversions of it
            for m in ("to_cum", "to_incr"):
                c = W.cls_of(o.s, o.r)
                if c and W.I.find_member(c, m) is not None:
                    x = op(W, "%s.%s()" % (o.label, m), o.s.st, lambda s: s.meth(o.r, m), "m")
                    if x.failed is None:
                        judge(x.label, x.s, x.r)


# ------------------------------------------------------------------ C14
def simid_fault(t, cellsof):
    """(True, reason) when simulation numbers are wrong, (False, "") when right, (None, reason) when undecided.
    Rows come in blocks (tile: whole triangles one after the other; repeat: copies of one cell together)"""
    key = T.key_of(t)
    if key is None or key[0] not in ("posdiv", "posmod", "idrepeat", "idtile"):
        return None, "derivation not tracked"
    f = key[0]
    lay, cnt = "?", key[-1]
    if f.startswith("pos"):
        lay = T.key_of(key[1])[1]
    leaves = {T.name_of(x) for x in T.atoms_in(cnt)}
    tracked = T.is_num(cnt) or (leaves and leaves <= {("nO",), ("nD",)})
    if f == "posdiv" or f == "idrepeat":
        if lay == "repeat":
            return True, "rows of one cell's copies are numbered alike, so a simulation does not hold one triangle"
        if not tracked or T.is_num(cnt):
            return None, "number of rows per simulation not tracked"
        if not T.same(cnt, cellsof):
            return True, "a simulation has as many rows as the triangle has cells (origins x development periods)"
        return (False, "") if lay in ("tile", "?") else (None, "layout not tracked")
    if lay == "tile":
        return True, "rows of whole triangles stacked one after the other are numbered by their place within the triangle"
    if lay == "repeat" and T.is_num(cnt):
        return False, ""
    return None, "layout not tracked"


@prop("C14")
def c14(rep, W):
    R1, R2 = "simulation-isolated", "own-simulation-number"
    rep.rule(R1, "no amount of sims_data or reserve_dist has passed through a shift, running total or aggregate that crosses simulations (or origins, for a "
                 "projection)")
    rep.rule(R2, "the simulation number of a row is its position divided by the number of cells of the triangle")
    b, tri = W.tri()
    for vn, kw in OPTIONS["boot"] + [("sims=1", {"sims": k(1)})]:
        for wrapper in (True, False):
            lab = "%s(%s)" % (ESTIMATORS["boot"][0 if wrapper else 1].split(".")[-1], vn)
            x = op(W, lab, b.st, lambda s: W.estimate(s, tri, "boot", wrapper, **opts(s, kw)), "e")
            if x.failed is not None:
                rep.unk(R1, lab, "fails in the analysis: " + why(x.failed))
                continue
            for f in ("sims_data", "reserve_dist"):
                v = W.field(x.s, x.r, f)
                o = x.s.obj(v) if v is not None else None
                if not isinstance(o, Frame):
                    rep.unk(R1, "%s.%s" % (lab, f), "not tracked")
                    continue
                for c, col in o.cols.items():
                    inst = "%s.%s[%r]" % (lab, f, c)
                    t = col.cell.tags
                    hit = [z for z in ("xsim", "xorg") if z in t]
                    if hit:
                        rep.bad(R1, "%s[%r] mixes %s" % (f, c, "simulations" if "xsim" in hit else "origins"),
                                "%s: the values come through an operation over rows of other %s" % (inst, "simulations" if "xsim" in hit else "origins"), None, lab)
                    elif UNKTAG in t:
                        rep.unk(R1, inst, "not tracked")
                    else:
                        rep.ok(R1, inst)
            cellsof = T.mul(T.atom("nO"), T.atom("nD"))
            for e in x.s.events():
                if e.kind != "simid" or e.data.get("scenario_site"):
                    continue
                bad, why_ = simid_fault(e.data.get("term"), cellsof)
                inst = "%s: identifier assigned in %s" % (lab, e.func)
                if bad:
                    rep.event(R2, e, "%s: the simulation number of a row is %s; %s" % (lab, T.show(e.data["term"], 5), why_))
                elif bad is None:
                    rep.unk(R2, inst, why_)
                else:
                    rep.ok(R2, inst, T.show(e.data["term"], 5))
        if vn in ("", "parametric") and x.failed is None:
            for r in member_ops(W, x.s.st, x.r, "%s result" % lab):
                if r.member == "origin_dist" and r.failed is None:
                    o = r.s.obj(r.r)
                    for c, col in o.cols.items() if isinstance(o, Frame) else ():
                        if "xsim" in col.cell.tags:
                            rep.bad(R1, "origin_dist[%r] mixes simulations" % c, "%s: origin_dist[%r] pools simulations" % (lab, c), None, lab)
                        else:
                            rep.ok(R1, "%s.origin_dist[%r]" % (lab, c))
