"""Options of the public operations: C10 (invalid ones are rejected), C11 (valid ones take effect and
are recorded), C16 (the sample datasets)."""
import os

from . import terms as T
from .rules import prop
from .sweep import *
from .rules_sweep import why

# (option, words of which one must appear in the error, representatives of unrecognised values).  A value that no code
# path compares with, plus the values that catch a test by prefix, suffix, containment, length or truthiness
BADTYPE = ("zzz", "xcum", "xincr", "triangle", "tabular", "", "1")
BADVALUES = {
    "tri_type": (("tri_type",), BADTYPE),
    "data_format": (("data_format", "format"), BADTYPE),
    "data_shape": (("data_shape", "shape"), ("zzz", "", "xtabular", "tabularx", "tab", "xtriangle", "trianglex", "tri", "cum")),
    "dist": (("dist",), ("zzz", "", "xnorm", "normx", "xlognorm", "lognormx", "log", "gamma", "nor")),
    "procdist": (("procdist", "process distribution"), ("zzz", "", "xgamma", "gammax", "gam", "normal", "poisson")),
    "dataset": (("dataset",), ("zzz", "", "xraa", "raax", "ra")),
    "loss_type": (("loss_type", "loss type"), ("zzz", "", "xpaid", "xincurred", "loss")),
    "lob": (("lob",), ("zzz", "")),
}
BADQ = [("1.5", lambda s: k(1.5)), ("-0.25", lambda s: k(-.25)), ("75", lambda s: k(75)), ("1.0001", lambda s: k(1.0001)), ("-1e-6", lambda s: k(-1e-6)),
        ("[0.5, 1.5]", QL(.5, 1.5)), ("[1.5, 0.5]", QL(1.5, .5)), ("[-0.5, 0.5]", QL(-.5, .5)), ("[0.5, -0.5, 0.75]", QL(.5, -.5, .75)),
        ("[75, 95]", QL(75, 95)), ("[1.5]", QL(1.5)), ("(0.2, 1.01)", lambda s: s.lst([k(.2), k(1.01)], "tuple"))]
QWORDS = ("quantile", "q values", "`q`", "q must", "percentile", "probabilit", "[0, 1]", "between 0 and 1")


def words_of(st, msg):
    """text of an exception's message, None when the analysis lost it"""
    if isinstance(msg, Sc):
        c = msg.cell.const
        if isinstance(c, str):
            return c
        if isinstance(c, AbsStr):
            return str(c)
    return None


def rejected(rep, rule, inst, construct, option, value, words, s, run):
    """run() must always end in an explicit exception whose message names the option or the value"""
    try:
        run()
        returned, excs = True, s.excs
    except Failed as e:
        returned, excs = False, e.excs
    named, anon, implicit = [], [], []
    for x in excs:
        t = words_of(x.state, x.msg)
        if not x.explicit:
            implicit.append(x)
        elif t is None:
            anon.append(x)
        elif any(w in t.lower() for w in words) or (isinstance(value, str) and len(value) > 1 and value in t):
            named.append(x)
        else:
            implicit.append(x)
    if not returned and named:
        rep.ok(rule, inst, "%s raised in %s" % (named[0].typ, named[0].func))
    elif returned and named:
        # the data that decides is not shipped (registry of the loss reserving database): the guard exists, on this value
        rep.ok(rule, inst, "%s raised in %s when the value is not listed" % (named[0].typ, named[0].func))
    elif returned:
        rep.bad(rule, construct, "%s: the call goes through: %s=%s is neither recognised nor rejected" % (inst, option, value), s.at, inst, inst=inst)
    elif anon and not implicit:
        rep.unk(rule, inst, "message not tracked")
    else:
        site = next(((e.file, e.func, e.line, e.msg) for e in s.events() if e.kind in FAILKINDS), None)
        what = "; ".join(sorted({"%s in %s" % (x.typ, x.func) for x in excs})) or (site[3] if site else "an unrelated failure")
        rep.bad(rule, construct, "%s: %s=%s is not rejected as such, the call fails with %s" % (inst, option, value, what), site[:3] if site else s.at, inst, inst=inst)


FAILKINDS = {"missing-attr", "bad-call", "unbound", "undefined", "missing-col", "missing-key", "bad-unpack", "bad-index", "type-error"}


@prop("C10")
def c10(rep, W):
    R1, R2 = "unknown-option-rejected", "quantile-range-checked"
    rep.rule(R1, "every call with an unrecognised value of an enumerated option ends, on every path, in a raise statement whose message names the option or the value")
    rep.rule(R2, "every call with a probability outside [0, 1], alone or anywhere in a list, ends on every path in a raise statement about the quantiles")
    b, tri = W.tri("build")
    results = {}
    for w in ("mack", "boot"):
        s = W.scn("estimate " + w, b.st)
        results[w] = (s, W.estimate(s, tri, w))

    def check(rule, option, value, words, inst, construct, st, fn):
        s = W.scn(inst, st)
        s.at = rep.locate(inst)
        rejected(rep, rule, inst, construct, option, value, words, s, lambda: fn(s))

    def each(option):
        words, vals = BADVALUES[option]
        for v in vals:
            yield v, words

    for v, words in each("tri_type"):
        for df in ("incr", "cum"):
            for shp in ("tabular", "triangle"):
                if df == "cum" and v not in BADTYPE[:4]:
                    continue
                inst = "totri(tri_type=%r, data_format=%r, data_shape=%r)" % (v, df, shp)
                mk = lambda s, shp=shp: s.tabular(rep="I") if shp == "tabular" else s.triframe(rep="I")
                check(R1, "tri_type", v, words, inst, "totri tri_type", None,
                      lambda s: s.call("trikit.totri", mk(s), tri_type=k(v), data_format=k(df), data_shape=k(shp)))
    for v, words in each("data_format"):
        for tt in ("cum", "incr"):
            for shp in ("tabular", "triangle"):
                inst = "totri(data_format=%r, tri_type=%r, data_shape=%r)" % (v, tt, shp)
                mk = lambda s, shp=shp: s.tabular(rep="I") if shp == "tabular" else s.triframe(rep="I")
                check(R1, "data_format", v, words, inst, "totri data_format", None,
                      lambda s: s.call("trikit.totri", mk(s), tri_type=k(tt), data_format=k(v), data_shape=k(shp)))
    for v, words in each("data_shape"):
        for df in ("incr", "cum"):
            for what, mk in (("table", lambda s: s.tabular(rep="I")), ("frame", lambda s: s.triframe(rep="I"))):
                inst = "totri(%s, data_shape=%r, data_format=%r)" % (what, v, df)
                check(R1, "data_shape", v, words, inst, "totri data_shape", None,
                      lambda s: s.call("trikit.totri", mk(s), data_shape=k(v), data_format=k(df)))
    names = dataset_names(W)
    for v, words in each("dataset"):
        for tt in (None, "cum"):
            kw = {} if tt is None else {"tri_type": k(tt)}
            inst = "load(%r%s)" % (v, "" if tt is None else ", tri_type='cum'")
            check(R1, "dataset", v, words, inst, "load dataset", None, lambda s: s.call("trikit.load", k(v), **kw))
    for v, words in each("tri_type"):
        for n in names[:2] if rep.tier == "quick" else names:
            inst = "load(%r, tri_type=%r)" % (n, v)
            check(R1, "tri_type", v, words, inst, "load tri_type", None, lambda s: s.call("trikit.load", k(n), tri_type=k(v)))
        inst = "load_lrdb(tri_type=%r)" % (v,)
        check(R1, "tri_type", v, words, inst, "load_lrdb tri_type", None, lambda s: s.call("trikit.load_lrdb", tri_type=k(v)))
    for opt in ("loss_type", "lob"):
        for v, words in each(opt):
            for tt in (None, "cum"):
                kw = {opt: k(v)}
                if tt:
                    kw["tri_type"] = k(tt)
                inst = "load_lrdb(%s=%r%s)" % (opt, v, "" if tt is None else ", tri_type='cum'")
                check(R1, opt, v, words, inst, "load_lrdb " + opt, None, lambda s: s.call("trikit.load_lrdb", **kw))
    for w, opt in (("mack", "dist"), ("boot", "procdist")):
        for v, words in each(opt):
            for wrapper in (True, False):
                for extra in ({}, {"alpha": k(2)} if w == "mack" else {"parametric": TRUE}):
                    if extra and v not in BADVALUES[opt][1][:4]:
                        continue
                    con = ESTIMATORS[w][0 if wrapper else 1].split(".")[-1]
                    inst = "%s(%s=%r%s)" % (con, opt, v, "".join(", %s=%s" % (a, c.cell.const) for a, c in extra.items()))
                    check(R1, opt, v, words, inst, "%s %s" % (ESTIMATORS[w][1].split(".")[-1], opt), b.st,
                          lambda s: W.estimate(s, tri, w, wrapper, **dict(extra, **{opt: k(v)})))
    # quantiles
    for qn, mk in BADQ:
        for w in ("mack", "boot"):
            con = ESTIMATORS[w][1].split(".")[-1]
            for extra in ({}, {"two_sided": TRUE}):
                inst = "%s(q=%s%s)" % (con, qn, ", two_sided=True" if extra else "")
                check(R2, "q", qn, QWORDS, inst, con + " q", b.st, lambda s: W.estimate(s, tri, w, q=mk(s), **extra))
            s0, r = results[w]
            cls = W.cls_of(s0, r)
            for m, req in W.methods(cls) if cls else ():
                fi = W.I.find_member(cls, m)
                if "q" not in fi.pos:
                    continue
                inst = "%sResult.%s(q=%s)" % (con, m, qn)
                check(R2, "q", qn, QWORDS, inst, "%sResult.%s q" % (con, m), s0.st, lambda s: s.meth(r, m, q=mk(s)))


# ------------------------------------------------------------------ C11
def tagged(opt, v):
    return Sc(Cell({"opt:" + opt}, const=v, dt="str" if isinstance(v, str) else "num", term=T.const(T.F(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else None))


def numtag(s, opt, cell=None):
    return Cell({"opt:" + opt}, dim=D0, dt="num", term=T.atom("given", opt))


def given(opt, how):
    """(label, maker) of tagged option values"""
    if how == "series":
        return "a Series", lambda s: s.ser(numtag(s, opt), DLAB.w(rep="[None:-1]"))
    if how == "list":
        return "a list", lambda s: s.manylst(numtag(s, opt))
    if how == "tuple":
        return "a tuple", lambda s: s.manylst(numtag(s, opt), kind="tuple")
    if how == "array":
        return "an array", lambda s: s.arr(numtag(s, opt))
    if how == "unknown":
        return "any number", lambda s: Sc(numtag(s, opt))
    if isinstance(how, list):
        return str(how), lambda s: s.lst([tagged(opt, x) for x in how])
    return repr(how), lambda s: tagged(opt, how)


# estimator -> option -> (values tried, parts of the result the option must reach).  A part is field or field/column
EFFECTS = {
    "base": {
        "sel": (["geometric-3", "all-simple", "medial-5", "series", "list", "tuple", "array"],
                ["ldfs", "cldfs", "emergence", "ultimate", "reserve", "trisqrd", "summary/cldf", "summary/emergence", "summary/ultimate", "summary/reserve"]),
        "tail": ([1.1, .95, "unknown"],
                 ["ldfs", "cldfs", "emergence", "ultimate", "reserve", "summary/cldf", "summary/emergence", "summary/ultimate", "summary/reserve"]),
    },
    "mack": {
        "alpha": ([2, 0, "unknown"], ["ldfs", "devpvar", "ldfvar", "process_error", "parameter_error", "std_error", "mse", "cv", "rvs", "ultimate", "reserve",
                                      "summary/cldf", "summary/std_error", "summary/cv", "summary/%"]),
        "q": ([0.9, [.9, .25]], ["summary/%"]),
    },
    "boot": {
        "sims": ([10, "unknown"], ["sims_data", "reserve_dist"]),
        "q": ([0.9, [.9, .25]], ["summary/%"]),
        "interpolation": (["lower", "midpoint"], ["summary/%"]),
        "random_state": ([516], ["sims_data/resid", "sims_data/ultimate", "reserve_dist/reserve", "reserve_dist/ultimate", "std_error", "summary/%"]),
    },
}
RECORDED = {"base": ("sel", "tail"), "mack": ("alpha", "tail", "dist"), "boot": ("sims", "q", "procdist", "parametric", "interpolation")}
FULL = {
    "base": [{"sel": "geometric-3", "tail": 1.1}, {"sel": "series", "tail": 1.05}, {"sel": "list", "tail": "unknown"}],
    "mack": [{"alpha": 2, "tail": 1.0, "dist": "norm", "q": [.9, .25], "two_sided": True}, {"alpha": 0, "dist": "lognorm", "q": [.6], "two_sided": False},
             {"q": [.001, .05, .5, .75, .995], "two_sided": False}, {"tail": 1.05}],
    "boot": [{"sims": 10, "q": [.9, .25], "procdist": "gamma", "parametric": True, "two_sided": True, "interpolation": "lower", "random_state": 516},
             {"sims": 20, "q": [.6], "procdist": "gamma", "parametric": False, "two_sided": False, "interpolation": "midpoint", "random_state": 7},
             {"q": [.005, .5, .995], "interpolation": "higher", "two_sided": True}, {"q": [.001, .05, .5, .75, .999], "interpolation": "nearest"}],
}


def reach(W, s, r, part):
    """[(where, cell)] of a part of a result, None when it is not tracked"""
    fld, _, col = part.partition("/")
    v = W.field(s, r, fld)
    if v is None:
        try:
            v = s.attr(r, fld)
        except Failed:
            return None
    o = s.obj(v) if isinstance(v, Ref) else None
    if isinstance(o, Frame):
        if col == "%":
            cs = [(c, x) for c, x in o.cols.items() if (isinstance(c, str) and c.endswith("%")) or isinstance(c, AbsStr)]
            return [(str(c), x.cell) for c, x in cs] or None
        if col:
            return [(col, o.cols[col].cell)] if col in o.cols else None
        if fld in ("sims_data", "reserve_dist"):
            return [(str(c), x.cell) for c, x in o.cols.items() if c in ("incr", "resid", "samp_incr", "ultimate", "reserve")] or None
        return [(str(c), x.cell) for c, x in o.cols.items()] + ([("*", o.rest.cell)] if o.rest is not None else [])
    if isinstance(o, (Ser, Arr)):
        return [(fld, o.cell)]
    if isinstance(v, Sc):
        return [(fld, v.cell)]
    return None


def alltag(s, v):
    o = s.obj(v) if isinstance(v, Ref) else None
    if o is None:
        return v.cell.tags if isinstance(v, Sc) else EMPTY
    return s.I.tags_of(v, s.st)


def consts_of(s, v):
    """the constants a value is known to consist of, None when unknown"""
    if isinstance(v, Sc):
        return v.cell.const if v.cell.const is not NOC else None
    o = s.obj(v) if isinstance(v, Ref) else None
    if isinstance(o, Seq) and not any(m for _, m in o.segs):
        xs = [consts_of(s, x) for x, _ in o.segs]
        return None if any(x is None for x in xs) else xs
    if isinstance(o, Arr) and o.exact is not None:
        xs = [c.const for c in o.exact]
        return None if any(x is NOC for x in xs) else xs
    return None


@prop("C11")
def c11(rep, W):
    R1, R2, R3, R4, R5, R6 = "option-takes-effect", "option-recorded", "same-through-both-entries", "option-switches", "one-alpha-throughout", "tail-as-given"
    rep.rule(R1, "the value given for an option flows into every part of the result that the option governs (taint from the argument to the published cells), "
                 "alone and together with the other options, through the convenience method and through the class")
    rep.rule(R2, "the option attributes of a result hold exactly the values given")
    rep.rule(R3, "for every set of options, and for none, the convenience method and the class end in results whose fields have the same symbolic value, "
                 "labels and recorded options")
    rep.rule(R4, "switches select different computations: distribution of the frozen variables, source of the resampled residuals, interval bounds")
    rep.rule(R5, "for every alpha the exponents of Mack's formulas agree with each other (no amounts of different dimension meet), so no formula uses another alpha")
    rep.rule(R6, "the factor written behind the selected ones is the given tail itself, above, at or below one")
    rep.assume.append("Mack's tail is documented as not implemented (must be 1.0): only its recording is checked")
    b, tri = W.tri("build")

    def run(w, wrapper, spec, inst):
        s = W.scn(inst, b.st)
        kw = {o: given(o, v)[1](s) for o, v in spec.items()}
        try:
            return s, W.estimate(s, tri, w, wrapper, **kw), kw
        except Failed as e:
            W.failures.append((inst, s, e))
            rep.unk(R1, inst, "always raises: " + why(e))
            return s, None, kw

    for w in ESTIMATORS:
        cls = ESTIMATORS[w][1].split(".")[-1]
        specs = [({o: v}, (o,)) for o, (vals, parts) in EFFECTS[w].items() for v in vals]
        specs += [(sp, tuple(sp)) for sp in FULL[w]]
        specs += [({o: sp[o]}, (o,)) for sp in FULL[w] for o in sp if o in RECORDED[w]]
        done = set()
        pairs = {}
        for spec, chk in specs + [({}, ())]:
            key = repr(sorted(spec.items(), key=lambda x: x[0]))
            if key in done:
                continue
            done.add(key)
            for wrapper in (True, False):
                con = ESTIMATORS[w][0 if wrapper else 1].split(".")[-1]
                inst = "%s(%s)" % (con, ", ".join("%s=%s" % (o, given(o, v)[0]) for o, v in spec.items()))
                s, r, kw = run(w, wrapper, spec, inst)
                if r is None:
                    continue
                pairs.setdefault(key, []).append((inst, s, r))
                if w == "base" and "tail" in spec:
                    for e in s.events():
                        if e.kind != "opt-stored" or e.data["opt"] != "tail" or e.data.get("scenario_site"):
                            continue
                        i2 = "%s: factor written in %s" % (inst, e.func)
                        c, t = e.data["const"], e.data["term"]
                        if c == spec["tail"] if c is not NOC else t == kw["tail"].cell.term and t is not None:
                            rep.ok(R6, i2)
                        elif c is not NOC and spec["tail"] != "unknown":
                            rep.event(R6, e, "%s: %r becomes the factor after the last development period" % (inst, c), "%s: the tail" % e.func)
                        else:
                            rep.unk(R6, i2, "value not tracked")
                for o in chk:
                    for part in EFFECTS[w].get(o, ((), ()))[1]:
                        i2 = "%s -> %s" % (inst, part) if len(spec) == 1 else "%s: %s -> %s" % (inst, o, part)
                        got = reach(W, s, r, part)
                        if got is None:
                            rep.unk(R1, i2, "not tracked")
                            continue
                        bad = [n for n, c in got if "opt:" + o not in c.tags]
                        if not bad:
                            rep.ok(R1, i2)
                        elif any(UNKTAG in c.tags or c == UNK for n, c in got if n in bad):
                            rep.unk(R1, i2, "not tracked")
                        else:
                            rep.bad(R1, "%s %s -> %s" % (cls, o, part), "%s: the given %s never reaches %s%s" % (inst, o, part, "" if part.count("/") and bad == [part.split("/")[1]] else " (%s)" % ", ".join(bad)),
                                    rep.locate(inst), inst, inst=i2)
                    if o in RECORDED[w]:
                        i2 = "%s.%s" % (inst, o)
                        v = W.field(s, r, o)
                        if v is None:
                            rep.bad(R2, "%s.%s" % (cls, o), "%s: the result does not record %s" % (inst, o), rep.locate(inst), inst, inst=i2)
                            continue
                        want, have = consts_of(s, kw[o]), consts_of(s, v)
                        if want is not None and have is not None:
                            same = want == have and isinstance(want, bool) == isinstance(have, bool)
                        else:
                            tg = alltag(s, v)
                            same = True if "opt:" + o in tg else None if UNKTAG in tg or isinstance(v, (Top, Un)) else False
                        if same:
                            rep.ok(R2, i2, str(have))
                        elif same is None:
                            rep.unk(R2, i2, "not tracked")
                        else:
                            rep.bad(R2, "%s.%s" % (cls, o), "%s: the result records %s for %s" % (inst, "something else" if have is None else repr(have), o), rep.locate(inst), inst, inst=i2)
        # both entries alike
        for key, xs in pairs.items():
            if len(xs) != 2:
                continue
            (i1, s1, r1), (i2, s2, r2) = xs
            d = diff_results(W, s1, r1, s2, r2)
            inst = "%s = %s" % (i1, i2)
            if d:
                rep.bad(R3, "%s versus %s" % (ESTIMATORS[w][0], cls), "%s differs from %s in %s" % (i1, i2, "; ".join(d[:4])), rep.locate(i1), i1, inst=inst)
            else:
                rep.ok(R3, inst)
    # switches
    def result(w, inst, **kw):
        s = W.scn(inst, b.st)
        try:
            return s, W.estimate(s, tri, w, **kw)
        except Failed as e:
            W.failures.append((inst, s, e))
            return s, None

    for d in ("norm", "lognorm"):
        inst = "mack_cl(dist=%s).rvs" % d
        s, r = result("mack", inst, dist=k(d))
        o = s.obj(W.field(s, r, "rvs")) if r is not None else None
        ds = [c.const.dist for c in ([o.cell] + list(o.special.values()) if isinstance(o, Ser) else []) if c is not None and isinstance(c.const, RVC)]
        if not ds:
            rep.unk(R4, inst, "not tracked")
        elif all(x == d for x in ds):
            rep.ok(R4, inst, str(ds))
        else:
            rep.bad(R4, "MackChainLadder dist", "mack_cl(dist=%s): the frozen distributions are %s" % (d, ", ".join(sorted(set(ds)))), rep.locate("mack_cl("), inst, inst=inst)
    for w in ("mack", "boot"):
        inst = "%s(two_sided)" % ESTIMATORS[w][0]
        cols = []
        for ts in (True, False):
            s, r = result(w, inst + "=%s" % ts, two_sided=k(ts))
            o = s.obj(W.field(s, r, "summary")) if r is not None else None
            cols.append({c for c in o.cols if isinstance(c, (str, AbsStr))} if isinstance(o, Frame) and not o.open else None)
        if None in cols or any(isinstance(c, AbsStr) for cs in cols for c in cs):
            rep.unk(R4, inst, "columns not tracked")
        elif cols[0] != cols[1]:
            rep.ok(R4, inst, "%s versus %s" % (sorted(cols[0] - cols[1]), sorted(cols[1] - cols[0])))
        else:
            rep.bad(R4, "%s two_sided" % ESTIMATORS[w][1].split(".")[-1], "%s: the summary has the same quantile columns whether or not intervals are requested two-sided" % inst,
                    rep.locate(inst), inst, inst=inst)
    # result methods
    s0, r0 = result("boot", "boot_cl()")
    for o, v, q in (("interpolation", "lower", .9), ("lb", 0, .9), ("lb", 10.5, [.25, .1]), ("interpolation", "nearest", [.25, .1])) if r0 is not None else ():
        inst = "BootstrapChainLadderResult.get_quantiles(q=%s, %s=%r)" % (q, o, v)
        s = W.scn(inst, s0.st)
        try:
            t = s.meth(r0, "get_quantiles", q=given("q", q)[1](s), **{o: tagged(o, v)})
        except Failed as e:
            rep.unk(R1, inst, "always raises: " + why(e))
            continue
        f = s.obj(t) if isinstance(t, Ref) else None
        if not isinstance(f, Frame) or f.open or not f.cols:
            rep.unk(R1, inst, "table not tracked")
            continue
        for c, x in f.cols.items():
            for opt in (o, "q"):
                if "opt:" + opt in x.cell.tags:
                    rep.ok(R1, "%s[%s] <- %s" % (inst, c, opt))
                elif UNKTAG in x.cell.tags:
                    rep.unk(R1, "%s[%s] <- %s" % (inst, c, opt), "not tracked")
                else:
                    rep.bad(R1, "BootstrapChainLadderResult.get_quantiles " + opt, "%s: the given %s never reaches column %s" % (inst, opt, c), rep.locate(inst), inst)
    # alpha
    clean = {}
    for a in (1, 0, 2):
        inst = "formulas of mack_cl(alpha=%s)" % a
        s, r = result("mack", inst, alpha=k(a))
        clean[a] = [e for e in s.events() if e.kind == "dim"]
    if clean[1]:
        rep.unk(R5, "mack_cl(alpha)", "dimensions not tracked with alpha=1")
    else:
        for a in (0, 2):
            for e in clean[a]:
                rep.event(R5, e, "mack_cl(alpha=%s): %s, though not with alpha=1: a formula is not given this alpha" % (a, e.msg), construct="%s alpha" % e.func)
            if not clean[a]:
                rep.ok(R5, "mack_cl(alpha=%s)" % a)
    draws = {}
    for p in (True, False):
        inst = "boot_cl(parametric=%s)" % p
        s, r = result("boot", inst, parametric=k(p), random_state=k(1))
        v = W.field(s, r, "sampling_dist") if r is not None else None
        draws[p] = frozenset(e.data.get("method") or e.msg for e in s.events() if e.kind in ("rng", "draw"))
        if v is None:
            rep.unk(R4, inst, "not tracked")
        elif (v == NONE) == p:
            rep.ok(R4, inst + ".sampling_dist")
        else:
            rep.bad(R4, "BootstrapChainLadder sampling_dist", "%s: sampling_dist is %s" % (inst, "kept" if p else "dropped"), rep.locate("boot_cl("), inst, inst=inst + ".sampling_dist")
    if not any(draws.values()):
        rep.unk(R4, "boot_cl(parametric) draws", "draws not tracked")
    elif draws[True] != draws[False]:
        rep.ok(R4, "boot_cl(parametric) draws", "%s versus %s" % (sorted(draws[True]), sorted(draws[False])))
    else:
        rep.bad(R4, "BootstrapChainLadder parametric", "boot_cl: parametric and non-parametric resampling draw alike (%s)" % sorted(draws[True]), rep.locate("boot_cl("), "boot_cl", inst="boot_cl(parametric) draws")


def diff_results(W, s1, r1, s2, r2):
    """fields in which two results differ, as far as both are tracked"""
    a, b = s1.obj(r1), s2.obj(r2)
    out = []
    if not isinstance(a, Inst) or not isinstance(b, Inst):
        return out
    if a.cls != b.cls:
        return ["class %s / %s" % (a.cls, b.cls)]
    for f in sorted(set(a.attrs) | set(b.attrs)):
        if f.startswith("_") or f == "tri":
            continue
        if (f in a.attrs) != (f in b.attrs):
            out.append("attribute %s only on one" % f)
            continue
        x, y = a.attrs[f], b.attrs[f]
        dx, dy = digest(s1, x), digest(s2, y)
        if dx is None or dy is None:
            continue
        for p in sorted(set(dx) | set(dy), key=str):
            u, v = dx.get(p), dy.get(p)
            if (u is None) != (v is None):
                if not any(isinstance(q, AbsStr) for q in (set(dx) | set(dy))):
                    out.append("%s%s" % (f, "[%s]" % p if p else ""))
                continue
            if u[0] is not None and v[0] is not None and u[0] != v[0]:
                out.append("%s%s: %s / %s" % (f, "[%s]" % p if p else "", u[0][1], v[0][1]))
            elif u[1] is not None and v[1] is not None and T.same(u[1], v[1]) is False:
                out.append("%s%s: %s / %s" % (f, "[%s]" % p if p else "", T.show(u[1], 2)[:80], T.show(v[1], 2)[:80]))
            elif UNKTAG not in u[2] | v[2] and u[2] != v[2]:
                out.append("%s%s depends on %s / %s" % (f, "[%s]" % p if p else "", sorted(u[2]), sorted(v[2])))
    return out


def digest(s, v):
    """{part: (constant, term, option tags)} of a value, None when it is not tracked"""
    def one(c):
        cst = ("c", c.const) if c.const is not NOC and not isinstance(c.const, (RVC,)) and c.const == c.const else None
        return (cst, c.term, frozenset(t for t in c.tags if t.startswith("opt:") or t == UNKTAG))
    if isinstance(v, Sc):
        return {"": one(v.cell)}
    o = s.obj(v) if isinstance(v, Ref) else None
    if isinstance(o, Frame):
        d = {c: one(x.cell) for c, x in o.cols.items() if x.cell is not None}
        for c, x in o.cols.items():
            for a, y in x.special.items():
                d["%s, %s" % (c, a)] = one(y)
        if o.rest is not None:
            d["*"] = one(o.rest.cell)
        return None if o.open else d
    if isinstance(o, Ser):
        d = {"": one(o.cell)} if o.cell is not None else {}
        for a, y in o.special.items():
            d[a] = one(y)
        return d
    if isinstance(o, Seq) and not any(m for _, m in o.segs):
        d = {}
        for i, (x, _) in enumerate(o.segs):
            y = digest(s, x)
            if y is None:
                return None
            for p, z in y.items():
                d["%d%s" % (i, p)] = z
        return d
    return None


# ------------------------------------------------------------------ C16
WHOLE = {"sep", "delimiter", "encoding", "engine", "low_memory", "dtype", "usecols"}


@prop("C16")
def c16(rep, W):
    R1, R2, R3, R4, R5 = "listed-is-shipped", "records-well-formed", "loads-the-file", "only-listed-names", "incremental-amounts"
    rep.rule(R1, "the listing is a list of distinct names, and each name leads to its own data file, which exists in the package and is of the shipped kind")
    rep.rule(R2, "the file a name leads to has origin, dev and value columns; origin and dev are whole numbers, value a finite number; no cell is recorded "
                 "twice, and every origin has every period from the first to its latest")
    rep.rule(R3, "load(name) is that whole file's origin, dev and value, unaltered and in this order; with a triangle type it is that triangle")
    rep.rule(R4, "load of any other name ends in an exception")
    rep.rule(R5, "the amounts of a shipped file are incremental, as documented: not running totals, i.e. growing at nearly every step of nearly every origin")
    s = W.scn("get_datasets()")
    at = rep.locate("_get_datasets")
    v = s.call("trikit.get_datasets")
    o = s.obj(v)
    if not isinstance(o, Seq) or not o.exact() or any(not isinstance(constof(x), str) for x, _ in o.segs):
        rep.unk(R1, "get_datasets()", "not tracked")
        names = dataset_names(W)
    else:
        names = [constof(x) for x, _ in o.segs]
        if len(set(names)) < len(names) or not names:
            rep.bad(R1, "get_datasets list", "get_datasets() lists %s" % (sorted(x for x in names if names.count(x) > 1) or "nothing"), at, "get_datasets()")
        else:
            rep.ok(R1, "get_datasets()", ", ".join(names))
    paths, data = {}, os.path.join(os.path.abspath(W.root), "trikit") + os.sep
    manifest = os.path.join(W.root, "MANIFEST.in")
    for nm in names:
        inst = "load(%r)" % nm
        s = W.scn(inst + " datasets")
        at = rep.locate("_load")
        try:
            r = s.call("trikit.load", k(nm))
        except Failed as e:
            rep.bad(R1, "listed %s" % nm, "%s always fails: %s" % (inst, why(e)), at, inst, inst=inst)
            continue
        reads = [e for e in s.events() if e.kind == "read-file"]
        if len(reads) != 1 or not isinstance(reads[0].data.get("path"), str):
            rep.unk(R1, inst, "%d files read, path not tracked" % len(reads))
            rep.unk(R2, inst, "file not known")
            continue
        e = reads[0]
        p, opts, rows = e.data["path"], e.data["opts"], e.data["rows"]
        site = (e.file, e.func, e.line)
        if not os.path.isfile(p) or not p.startswith(data):
            rep.bad(R1, "listed %s" % nm, "%s reads %s, which is not a file of the package" % (inst, os.path.relpath(p, W.root)), site, inst, inst=inst)
            continue
        if p in paths:
            rep.bad(R1, "listed %s" % nm, "%s reads %s, the file of %r" % (inst, os.path.basename(p), paths[p]), site, inst, inst=inst)
            continue
        paths[p] = nm
        rep.ok(R1, inst, os.path.relpath(p, W.root))
        # the records
        rel = os.path.relpath(p, W.root)
        if rows is None:
            rep.unk(R2, inst, "the file is not read as delimited text")
        else:
            faults = table_faults(rows)
            for f in faults[:3]:
                rep.bad(R2, "data %s" % nm, "%s: %s: %s" % (inst, rel, f), (rel, nm, 0), inst, inst=inst)
            if not faults:
                rep.ok(R2, inst, "%d records" % (len(rows) - 1))
                if running_totals(rows):
                    rep.bad(R5, "data %s" % nm, "%s: the amounts in %s are running totals" % (inst, rel), (rel, nm, 0), inst, inst=inst)
                else:
                    rep.ok(R5, inst)
        # the table
        cut = [x for x in s.events() if x.kind == "rows"]
        odd = sorted(set(opts) - WHOLE)
        f = s.obj(r)
        if cut:
            rep.event(R3, cut[0], "%s %s" % (inst, cut[0].msg), construct="load rows")
        elif odd:
            whole = all(o_ in ("header",) and opts[o_] in (0, "infer") or o_ in ("nrows", "skiprows", "index_col", "names", "comment") and opts[o_] is None
                        or o_ in ("skipfooter", "skiprows") and opts[o_] == 0 for o_ in odd)
            if whole:
                rep.ok(R3, inst + " records")
            elif set(odd) & {"nrows", "skiprows", "skipfooter", "names", "index_col", "chunksize", "iterator", "header"}:
                rep.bad(R3, "load rows", "%s reads the file with %s" % (inst, ", ".join(odd)), site, inst, inst=inst + " records")
            else:
                rep.unk(R3, inst + " records", "read with %s" % ", ".join(odd))
        else:
            rep.ok(R3, inst + " records")
        if not isinstance(f, Frame) or f.open:
            rep.unk(R3, inst + " columns", "not tracked")
        elif f.cls is not None:
            rep.bad(R3, "load type", "%s is a %s, not the table" % (inst, f.cls), at, inst, inst=inst + " columns")
        else:
            cols = list(f.cols)
            if cols != ["origin", "dev", "value"] or f.rest is not None:
                rep.bad(R3, "load columns", "%s has the columns %s" % (inst, cols), at, inst, inst=inst + " columns")
            else:
                rep.ok(R3, inst + " columns")
                for c in cols:
                    t = f.cols[c].cell.term
                    want = T.atom("csv", os.path.basename(p), c)
                    if t is None or T.same(t, want) is None:
                        rep.unk(R3, "%s %s" % (inst, c), "value not tracked")
                    elif T.same(t, want):
                        rep.ok(R3, "%s %s" % (inst, c))
                    else:
                        rep.bad(R3, "load %s" % c, "%s: column %s is %s, not the file's" % (inst, c, T.show(t, 2)[:80]), at, inst, inst="%s %s" % (inst, c))
        for tt in ("cum", "incr"):
            i2 = "load(%r, tri_type=%r)" % (nm, tt)
            s2 = W.scn(i2 + " datasets")
            try:
                r2 = s2.call("trikit.load", k(nm), tri_type=k(tt))
            except Failed as x:
                rep.bad(R3, "load triangle", "%s always fails: %s" % (i2, why(x)), at, i2, inst=i2)
                continue
            cls = (W.cls_of(s2, r2) or "").split(".")[-1]
            want = "CumTriangle" if tt == "cum" else "IncrTriangle"
            e2 = [x.data.get("path") for x in s2.events() if x.kind == "read-file"]
            if e2 and set(e2) != {p}:
                rep.bad(R3, "load triangle", "%s reads %s" % (i2, e2), at, i2, inst=i2)
            elif not cls:
                rep.unk(R3, i2, "type not tracked") if not isinstance(s2.obj(r2), Frame) else \
                    rep.bad(R3, "load triangle", "%s is a plain table" % i2, at, i2, inst=i2)
            elif cls == want:
                rep.ok(R3, i2)
            else:
                rep.bad(R3, "load triangle", "%s is a %s" % (i2, cls), at, i2, inst=i2)
    # shipped with the package
    if paths:
        kinds = {os.path.splitext(p)[1] for p in paths}
        try:
            with open(manifest) as fh:
                rules = [x.split() for x in fh if x.strip()]
        except OSError:
            rules = []
        ship = {x for r in rules if r[0] in ("global-include", "include", "recursive-include", "graft") for x in r[1:]}
        if any("*" + x in ship for x in kinds):
            rep.ok(R1, "MANIFEST.in ships %s" % ", ".join(sorted(kinds)))
        elif not ship:
            rep.unk(R1, "MANIFEST.in", "no packaging rule understood")
    # other names
    s = W.scn("dataref keys")
    reg = s.obj(s.pub("trikit.dataref"))
    other = {"zzz", "", "raa.csv", " raa", "all", "None", "lrdb"}
    if isinstance(reg, Dct):
        other |= {x for x in reg.items if isinstance(x, str)}
    for nm in names:
        other |= {nm.upper(), nm.capitalize(), nm[:-1], nm[:2], nm[1:], nm + "s", nm + "2", nm + " ", nm + ".csv"}
    for nm in sorted(other - set(names)):
        for tt in (None, "cum"):
            inst = "load(%r%s)" % (nm, "" if tt is None else ", tri_type=%r" % tt)
            s = W.scn(inst + " datasets")
            try:
                s.call("trikit.load", k(nm), **({} if tt is None else {"tri_type": k(tt)}))
            except Failed:
                rep.ok(R4, inst)
                continue
            if s.excs:
                rep.unk(R4, inst, "may go through")
            else:
                rep.bad(R4, "load name", "%s goes through, though %r is not listed" % (inst, nm), rep.locate("_load"), inst, inst=inst)


def number(x):
    try:
        f = float(x)
    except ValueError:
        return None
    return f if f == f and abs(f) != float("inf") else None


def whole(x):
    f = number(x)
    return int(f) if f is not None and f == int(f) else None


def table_faults(rows):
    """what keeps rows from being a well-formed table of records"""
    head = rows[0]
    if not {"origin", "dev", "value"} <= set(head) or len(set(head)) < len(head):
        return ["the columns are %s" % head]
    o, d, v = (head.index(c) for c in ("origin", "dev", "value"))
    out, seen = [], {}
    for i, r in enumerate(rows[1:], 2):
        if len(r) != len(head):
            out.append("line %d has %d fields" % (i, len(r)))
            continue
        a, b, x = whole(r[o]), whole(r[d]), number(r[v])
        if a is None or b is None:
            out.append("line %d: origin %r, dev %r are not whole numbers" % (i, r[o], r[d]))
        elif x is None:
            out.append("line %d: value %r is not a number" % (i, r[v]))
        elif (a, b) in seen:
            out.append("line %d repeats the cell (origin %d, dev %d) of line %d" % (i, a, b, seen[a, b]))
        else:
            seen[a, b] = i
    if not seen:
        return out or ["no records"]
    first = min(b for _, b in seen)
    for a in sorted({a for a, _ in seen}):
        devs = {b for x, b in seen if x == a}
        gap = sorted(set(range(first, max(devs) + 1)) - devs)
        if gap:
            out.append("origin %d has no record for dev %s" % (a, gap))
    origins = {a for a, _ in seen}
    gap = sorted(set(range(min(origins), max(origins) + 1)) - origins)
    if gap:
        out.append("no records of origin %s" % gap)
    return out


def running_totals(rows):
    head = rows[0]
    o, d, v = (head.index(c) for c in ("origin", "dev", "value"))
    cells = {(whole(r[o]), whole(r[d])): number(r[v]) for r in rows[1:]}
    up = down = 0
    for (a, b), x in cells.items():
        y = cells.get((a, b + 1))
        if y is not None:
            up, down = up + (y >= x), down + (y < x)
    return up + down >= 6 and up >= 0.9 * (up + down)
