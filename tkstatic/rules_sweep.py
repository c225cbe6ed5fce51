"""Rules judged over the whole public surface: C07 C08 C09 C12 C17 C19."""
import ast
import re

from .rules import *
from .sweep import *


def why(failed):
    return "; ".join(sorted({"%s in %s (line %s)%s" % (x.typ, x.func, x.line, ": " + show_msg(x.msg) if x.msg is not None else "") for x in failed.excs}))


def failsite(o):
    """(function, (file, function, line), text) of what makes an operation always fail, or None"""
    if o.failed is None:
        return None
    for e in o.s.events():
        if e.kind in BROKEN:
            return e.func, (e.file, e.func, e.line), e.msg
    for x in o.failed.excs:
        return x.func, ("", x.func, x.line), why(o.failed)
    return None


def show_msg(m):
    if isinstance(m, Sc) and isinstance(m.cell.const, str):
        return m.cell.const
    return m if isinstance(m, str) else "..."


def unimplemented(o):
    return o.failed is not None and o.failed.excs and all(x.typ == "NotImplementedError" for x in o.failed.excs)


def swept(rep, rule, o, evs):
    """record one operation: its offending events, or discharged, or open"""
    for e in evs:
        rep.event(rule, e, "%s: %s" % (o.label, e.msg))
    if evs:
        return
    if o.failed is not None and not unimplemented(o):
        rep.unk(rule, o.label, "every abstract path raises: " + why(o.failed))
    else:
        rep.ok(rule, o.label)


# ------------------------------------------------------------------ C07
DRAWN = {"plt", "sns", "ax", "axes", "fig", "figure", "grid", "mpl", "cm", "matplotlib", "seaborn"}


def drawing(W, qual):
    """is the function (or one it is nested in) part of drawing an exhibit: it uses a plotting library or an axes"""
    for f in W.I.funcs.values():
        if qual == f.qual or qual.startswith(f.qual + "."):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and x.id in DRAWN or isinstance(x, ast.arg) and x.arg in DRAWN:
                    return True
                if isinstance(x, (ast.Import, ast.ImportFrom)) and any(a.name.split(".")[0] in DRAWN for a in x.names) \
                        or isinstance(x, ast.ImportFrom) and (x.module or "").split(".")[0] in DRAWN:
                    return True
    return False


@prop("C07")
def c07(rep, W):
    R = "labels-are-identifiers"
    rep.rule(R, "outside the code that draws, no origin or development label takes part in arithmetic with numbers, is compared with a literal, is used "
                "as a row or column position, and no position is used as a label (differences of labels used as a step excepted)")
    for o in sweep(W):
        if o.kind == "lrdb":
            continue
        evs = [e for e in o.s.events() if e.kind in LABELS]
        if o.exhibit:
            # an exhibit shows tables: the functions behind it that tabulate count, those that place marks and ticks do not
            evs = [e for e in evs if not drawing(W, e.func)]
        swept(rep, R, o, evs)


# ------------------------------------------------------------------ C08
def ren(x, names):
    """name independent of the user's choice"""
    return "<%d>" % names.index(x) if x in names else "<%d>" % NAMES.index(x) if x in NAMES else x


def cellsig(c, names):
    return None if c is None else (c.dim, c.lab, c.rep, c.dt, termsig(c.term, names))


def termsig(t, names):
    """a term's text with the user's names made canonical"""
    if t is None:
        return None
    return re.sub(r"[A-Za-z_][A-Za-z_0-9]*", lambda m: NAMES[names.index(m.group())] if m.group() in names else m.group(), T.show(t))


def signature(s, v, names, depth=2):
    """published content of a value, column names of the user made canonical"""
    o = s.obj(v) if isinstance(v, Ref) else None
    if isinstance(v, Sc):
        return ("scalar", cellsig(v.cell, names), ren(v.cell.const, names) if isinstance(v.cell.const, str) else None)
    if isinstance(o, Frame):
        if o.open:
            return None
        return ("frame", tuple((ren(c, names), cellsig(x.cell, names)) for c, x in o.cols.items()), cellsig(o.rest.cell, names) if o.rest is not None else None)
    if isinstance(o, Ser):
        return ("series", cellsig(o.cell, names), tuple(sorted((str(a), cellsig(b, names)) for a, b in o.special.items())))
    if isinstance(o, Arr):
        return ("array", cellsig(o.cell, names))
    if isinstance(o, Seq):
        return (o.kind,) + tuple((signature(s, x, names, depth - 1) if depth else None, m) for x, m in o.segs)
    if isinstance(o, Inst) and depth:
        return ("object", o.cls) + tuple((a, signature(s, b, names, depth - 1)) for a, b in sorted(o.attrs.items()) if a != "tri" and not a.startswith("_"))
    return None


def sigdiff(a, b, path=""):
    """first place where two signatures differ, unknown parts agreeing with everything"""
    if a is None or b is None or a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return path + " has different columns or parts"
        for i, (x, y) in enumerate(zip(a, b)):
            d = sigdiff(x, y, path + (".%s" % x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else ""))
            if d:
                return d
        return None
    return "%s: %s instead of %s" % (path or "value", b, a)


@prop("C08")
def c08(rep, W):
    R1, R2, R3 = "names-resolve", "names-irrelevant", "names-recorded"
    rep.rule(R1, "with user-chosen column and axis names every operation resolves its columns, attributes and calls")
    rep.rule(R2, "with user-chosen names every published value has the same columns (the user's three renamed), form and symbolic content as with the default names")
    rep.rule(R3, "a triangle records the names it was built from")
    base = {}
    for o in sweep(W):
        if o.kind not in ("build", "data", "lrdb") and o.failed is None and not o.exhibit:
            base[o.label] = signature(o.s, o.r, NAMES)
    for o in sweep(W, custom=True):
        lab = o.label
        evs = [e for e in o.s.events() if e.kind in BROKEN]
        if o.failed is not None and not unimplemented(o) and not evs:
            x = o.failed.excs[0] if o.failed.excs else None
            if x is not None:
                rep.bad(R1, "%s raises %s" % (x.func, x.typ), "%s always raises: %s" % (lab, why(o.failed)), (None and "" or "", x.func, x.line), lab)
                continue
        swept(rep, R1, o, evs)
        ref = base.get(lab.replace("custom names: ", "", 1))
        if ref is not None and o.failed is None and not o.exhibit:
            g = signature(o.s, o.r, CUSTOM)
            d = sigdiff(ref, g)
            if d:
                rep.bad(R2, "%s depends on the column names" % lab.replace("custom names: ", "", 1).split("(")[0], "%s: %s" % (lab, d), None, lab, inst=lab)
            elif g is None:
                rep.unk(R2, lab, "result not tracked")
            else:
                rep.ok(R2, lab)
    # axis names of a triangle-shaped frame
    for key, o in constructions(W):
        tt, df, sh, nm = key
        evs = [e for e in o.s.events() if e.kind in BROKEN]
        for e in evs:
            rep.event(R1, e, "%s: %s" % (o.label, e.msg))
        if o.failed is not None:
            if not evs:
                x = o.failed.excs[0] if o.failed.excs else None
                if x is None:
                    rep.unk(R1, o.label, "does not return")
                    continue
                rep.bad(R1, "%s raises %s" % (x.func, x.typ), "%s always raises: %s" % (o.label, why(o.failed)), ("", x.func, x.line), o.label)
            continue
        if not evs:
            rep.ok(R1, o.label)
        want = nm if sh != "triangle" else NAMES
        for a, w in zip(NAMES, want):
            v = W.field(o.s, o.r, a)
            c = constof(v) if v is not None else NOC
            inst = "%s: .%s" % (o.label, a)
            if c is NOC:
                rep.unk(R3, inst, "not tracked")
            elif c != w:
                rep.bad(R3, "triangle.%s" % a, "%s: the triangle reports %s=%r, built from %r" % (o.label, a, c, w), None, o.label)
            else:
                rep.ok(R3, inst)


    # names that the package itself uses as column names somewhere
    sets = [("dev", "origin", "value"), ("value", "dev", "origin"), ("origin", "value", "dev")]
    lits = column_literals(W)
    for j in range(0, len(lits), 3):
        a = (lits[j:j + 3] + ["aa_", "bb_"])[:3]
        sets += [tuple(a), (a[1], a[2], a[0]), (a[2], a[0], a[1])]
    for nm in sets:
        for o in collide(W, nm):
            lab = "names %s: %s" % (",".join(nm), o.label)
            evs = [e for e in o.s.events() if e.kind in BROKEN]
            for e in evs:
                rep.event(R1, e, "%s: %s" % (lab, e.msg), "%s with a column named like one of the package's own" % e.func)
            if evs:
                continue
            if o.failed is not None and not unimplemented(o):
                x = o.failed.excs[0] if o.failed.excs else None
                if x is not None:
                    rep.bad(R1, "%s raises %s" % (x.func, x.typ), "%s always raises: %s" % (lab, why(o.failed)), ("", x.func, x.line), lab)
                continue
            rep.ok(R1, lab)
            if o.failed is None and o.kind == "build" and isinstance(o.r, Ref):
                g = o.s.obj(o.r)
                if isinstance(g, Frame) and (set(g.cols) & set(nm) or g.restlab != "D" and g.rest is not None):
                    rep.bad(R2, "%s columns" % o.label.split("(")[0], "%s: the triangle has a column of the table instead of development periods only" % lab, None, lab)


def column_literals(W):
    """strings that code which knows the user's names also uses, to name columns (drawing code excepted)"""
    out = set()
    for f in list(W.I.funcs.values()):
        if ".tests" in f.qual or drawing(W, f.qual):
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr in NAMES or isinstance(x, (ast.arg, ast.Name)) and getattr(x, "arg", getattr(x, "id", None)) in NAMES
                   for x in ast.walk(f.node)):
            continue
        for x in ast.walk(f.node):
            parts = []
            if isinstance(x, ast.Subscript):
                parts = [x.slice]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                parts = x.args + [b.value for b in x.keywords]
                if x.func.attr in ("assign", "agg"):
                    out |= {b.arg for b in x.keywords if b.arg}
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in ("columns", "name", "names") for t in x.targets):
                parts = [x.value]
            for p in parts:
                out |= {c.value for c in ast.walk(p) if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.isidentifier() and c.value[0] != "_"}
    return sorted(out - set(NAMES))


def collide(W, nm):
    for key, o in constructions(W, names=(nm,)):
        if key[2] == "triangle":
            continue
        yield o
        if o.failed is None and key[1] == "incr" and key[2] == "tabular":
            cls = W.cls_of(o.s, o.r)
            for m in W.props(cls) if cls else ():
                yield op(W, "%s.%s" % (key[0], m), o.s.st, lambda s: s.attr(o.r, m), "prop")
            for m, req in W.methods(cls) if cls else ():
                if not req and m not in ("base_cl", "mack_cl", "boot_cl", "plot"):
                    yield op(W, "%s.%s()" % (key[0], m), o.s.st, lambda s: s.meth(o.r, m), "meth")
            if key[0] == "cum":
                for w in ESTIMATORS:
                    yield op(W, w, o.s.st, lambda s: W.estimate(s, o.r, w), "estimate")


# ------------------------------------------------------------------ C09
@prop("C09")
def c09(rep, W):
    R1, R2 = "resolves", "completes"
    rep.rule(R1, "every name, attribute, column, label and internal call reached from a public operation resolves on every abstract path")
    rep.rule(R2, "every public operation has an abstract path that completes (operations documented as not implemented excepted)")
    for o in sweep(W):
        evs = [e for e in o.s.events() if e.kind in BROKEN]
        for e in evs:
            rep.event(R1, e, "%s: %s" % (o.label, e.msg))
        if o.failed is not None:
            if unimplemented(o):
                continue
            if not evs:
                x = o.failed.excs[0] if o.failed.excs else None
                if x is not None:
                    rep.bad(R2, "%s raises %s" % (x.func, x.typ), "%s always raises: %s" % (o.label, why(o.failed)), ("", x.func, x.line), o.label)
        else:
            if not evs:
                rep.ok(R1, o.label)
            rep.ok(R2, o.label)
    module_names(rep, W, R1)


def module_names(rep, W, R):
    """public submodules and the package's declared names can be loaded"""
    for p in ("trikit.totri", "trikit.load", "trikit.load_lrdb", "trikit.get_datasets", "trikit.get_lrdb_lobs", "trikit.get_lrdb_specs",
              "trikit.dataref", "trikit.triangle.CumTriangle", "trikit.triangle.IncrTriangle", "trikit.estimators.base.BaseChainLadder",
              "trikit.estimators.mack.MackChainLadder", "trikit.estimators.bootstrap.BootstrapChainLadder"):
        s = W.scn(p)
        try:
            s.pub(p)
            rep.ok(R, p)
        except (AnalysisError, Dead) as e:
            rep.bad(R, p, "public name %s does not resolve" % p, None, p)


# ------------------------------------------------------------------ C12




@prop("C12")
def c12(rep, W):
    from fractions import Fraction
    half = P(Fraction(1, 2))
    R1, R2 = "homogeneous", "published-degree"
    rep.rule(R1, "outside exhibits, no two quantities of different degree in the currency unit are added, compared, merged or selected between, and no "
                 "amount is compared with or offset by a literal other than zero (the floor for first-period amounts <= 0 excepted)")
    rep.rule(R2, "every published field has its degree: amounts 1, factors/ratios/coefficients of variation 0, variances 2, scaled residuals 1/2, "
                 "for symbolic alpha as well")
    col = {"latest": D1, "ultimate": D1, "reserve": D1, "cldf": D0, "emergence": D0, "std_error": D1, "cv": D0}
    common = {"ultimate": D1, "reserve": D1, "latest": D1, "cldfs": D0, "ldfs": D0, "emergence": D0, "trisqrd": D1, "std_error": D1, "cv": D0, "mse": P(2)}
    per = {"base": {}, "mack": {"process_error": P(2), "parameter_error": P(2), "ldfvar": D0},
           "boot": {"unscaled_residuals": half, "adjusted_residuals": half, "sampling_dist": half, "scale_param": D1, "fitted_tri_cum": D1, "fitted_tri_incr": D1}}
    frames = {"reserve_dist": {"latest": D1, "ultimate": D1, "reserve": D1},
              "sims_data": {"incr": D1, "samp_incr": D1, "samp_cum": D1, "final_incr": D1, "ultimate": D1, "latest": D1, "reserve": D1, "ldf": D0,
                            "incr_sqrt": half, "resid": half, "param1": D0, "param2": D1},
              "origin_dist": {"latest": D1, "ultimate": D1, "reserve": D1}}

    def deg(lab, what, c, want):
        if c is None:
            return
        d = dim_norm(c.dim) if c.dim is not None else None
        if d is None:
            rep.unk(R2, "%s: %s" % (lab, what), "degree not tracked")
        elif d == Z or d == want:
            rep.ok(R2, "%s: %s" % (lab, what))
        else:
            rep.bad(R2, "%s degree" % what, "%s: %s has degree '%s' in the currency unit instead of '%s'" % (lab, what, dim_show(d), dim_show(want)), None, lab)

    def cells(s, v):
        o = s.obj(v)
        if isinstance(v, Sc):
            yield "", v.cell
        elif isinstance(o, (Ser, Col)):
            yield "", o.cell
            for a, b in o.special.items():
                yield "[%s]" % a, b
        elif isinstance(o, Arr):
            yield "", o.cell
        elif isinstance(o, Frame):
            for a, b in o.cols.items():
                yield "[%r]" % a, b.cell
            if o.rest is not None:
                yield "[*]", o.rest.cell

    def tables(lab, s, v, spec):
        o = s.obj(v)
        if isinstance(o, Frame):
            for c, x in o.cols.items():
                want = spec.get(c, D1 if isinstance(c, str) and c.endswith("%") else None)
                if want is None:
                    continue
                deg(lab, "%s" % c, x.cell, want)
                for a, y in x.special.items():
                    deg(lab, "%s[%s]" % (c, a), y, want)

    def result(lab, s, ref, w, alpha):
        for a, want in dict(common, **per[w]).items():
            v = W.field(s, ref, a)
            if v is None:
                continue
            for sub, c in cells(s, v):
                if c.const is None or c.dt in ("str", "none"):
                    continue
                deg(lab, a + sub, c, want)
        v = W.field(s, ref, "summary")
        if v is not None:
            tables(lab, s, v, col)
        for a, spec in frames.items():
            v = W.field(s, ref, a)
            if v is not None:
                tables(lab, s, v, spec)
        if w == "mack" and alpha is not None:
            v = W.field(s, ref, "devpvar")
            for sub, c in cells(s, v) if v is not None else ():
                deg(lab, "devpvar", c, alpha)

    extra = [("mack", "alpha symbolic", {"alpha": lambda s: Sc(Cell(dim=D0, dt="num", term=T.atom("alpha")))}),
             ("mack", "alpha symbolic, dist=norm", {"alpha": lambda s: Sc(Cell(dim=D0, dt="num", term=T.atom("alpha"))), "dist": k("norm")})]
    for o in sweep(W):
        if o.exhibit or o.kind == "lrdb":
            continue
        swept(rep, R1, o, [e for e in o.s.events() if e.kind == "dim"])
        if o.failed is None and o.kind == "estimate" and isinstance(o.r, Ref):
            al = None
            if o.member == "mack":
                a = o.kw.get("alpha")
                al = P(0, 1) if callable(a) else P(constof(a)) if a is not None and constof(a) is not NOC else P(1) if a is None else None
            result(o.label, o.s, o.r, o.member, al)
        if o.failed is None and o.member == "get_quantiles":
            for sub, c in cells(o.s, o.r):
                deg(o.label, "quantile" + sub, c, D1)
    b, tri = W.tri()
    for w, vn, kw in extra:
        for wrapper in (True, False):
            lab = "%s(%s) via %s" % (w, vn, "method" if wrapper else "class")
            x = op(W, lab, b.st, lambda s: W.estimate(s, tri, w, wrapper, **opts(s, kw)), "estimate", member=w, kw=kw)
            swept(rep, R1, x, [e for e in x.s.events() if e.kind == "dim"])
            if x.failed is None and isinstance(x.r, Ref):
                result(lab, x.s, x.r, w, P(0, 1))
    # triangle attributes
    for m, want in (("latest_by_origin", D1), ("latest_by_devp", D1), ("a2a", D0)):
        x = op(W, "triangle." + m, b.st, lambda s: s.attr(tri, m), "prop")
        if x.failed is None:
            for sub, c in cells(x.s, x.r):
                deg(x.label, m + sub, c, want)
    x = op(W, "triangle.a2a_avgs()", b.st, lambda s: s.meth(tri, "a2a_avgs"), "meth")
    if x.failed is None:
        for sub, c in cells(x.s, x.r):
            deg(x.label, "a2a_avgs", c, D0)
    rep.assume.append("first-period amounts are positive (stated in the property); the degree calculus treats 0 and NaN as fitting every degree")


# ------------------------------------------------------------------ C17
@prop("C17")
def c17(rep, W):
    R1, R2, R3 = "no-global-effect", "plotting-on-demand", "writes-only-where-told"
    rep.rule(R1, "no statement reachable from importing the package or from a public operation changes a process-wide setting outside a with-block that restores it")
    rep.rule(R2, "matplotlib and seaborn are imported only inside operations that draw an exhibit")
    rep.rule(R3, "nothing is written to a file except an exhibit, and that only to the path the caller gave")

    def judge(evs, label, exhibit, importing=False):
        bad = False
        for e in evs:
            if e.kind in ("effect", "lib-store") and not e.data.get("scoped") and e.data.get("what") != "files":
                if e.kind == "effect" and e.data.get("name", "").startswith("builtins."):
                    continue
                rep.event(R1, e, "%s: %s, process-wide and not restored" % (label, e.msg), "%s: %s" % (e.func, e.msg))
                bad = True
            elif e.kind == "rng-global":
                rep.event(R1, e, "%s: %s" % (label, e.msg), "%s: %s" % (e.func, e.msg))
                bad = True
            elif e.kind == "effect" and e.data.get("what") == "files" or e.kind == "file-write":
                if e.kind == "effect" or "exhibit_path" not in e.data.get("tags", ()):
                    rep.event(R3, e, "%s: %s to a path the caller did not give" % (label, e.msg), "%s: %s" % (e.func, e.msg))
                    bad = True
            elif e.kind == "import" and e.data.get("name", "").split(".")[0] in ("matplotlib", "seaborn"):
                if e.data.get("toplevel"):
                    rep.event(R2, e, "%s is imported when the package is imported" % e.data["name"], "%s imports %s" % (e.func, e.data["name"]))
                    bad = True
        if not bad:
            rep.ok(R1, label)
            rep.ok(R3, label)

    load = [e for e in W.I.events if not e.scen]
    judge(load, "import trikit", False)
    I = W.I
    for o in sweep(W):
        judge(o.s.events(), o.label, o.exhibit)
        imp = [e for e in o.s.events() if e.kind == "import" and e.data.get("name", "").split(".")[0] in ("matplotlib", "seaborn") and not e.data.get("toplevel")]
        drawing = o.member in ("plot", "hist", "diagnostics") or bool(imp) and draws(o)
        if imp and not drawing:
            rep.event(R2, imp[0], "%s loads %s although it draws nothing" % (o.label, imp[0].data["name"]), "%s imports %s" % (imp[0].func, imp[0].data["name"]))
        else:
            rep.ok(R2, o.label)


def draws(o):
    return any(e.kind == "facet" or e.kind == "file-write" for e in o.s.events())


# ------------------------------------------------------------------ C19
FORMS = {"sims_data": {"incr": "I", "samp_incr": "I", "samp_cum": "C", "var": "I", "final_incr": "I", "ultimate": "C", "latest": "C"},
         "reserve_dist": {"ultimate": "C", "latest": "C"}, "summary": {"latest": "C", "ultimate": "C"}}


@prop("C19")
def c19(rep, W):
    R1, R2, R3 = "like-with-like", "triangle-form", "same-experience"
    rep.rule(R1, "no incremental and cumulative amounts are added, subtracted, divided or merged as like quantities; running totals only over incremental, "
                 "differences only over cumulative amounts, along development")
    rep.rule(R2, "every IncrTriangle holds incremental and every CumTriangle cumulative amounts, however it was built or converted; fitted triangles likewise")
    rep.rule(R3, "totri and the conversions return the class that was asked for")

    def form(s, ref):
        o = s.obj(ref)
        return o.rest.cell.rep if isinstance(o, Frame) and o.rest is not None else None

    def check(lab, s, ref, want, construct):
        f = form(s, ref)
        if f is None:
            rep.unk(R2, lab, "form of the amounts not tracked")
        elif f in (want, "any"):
            rep.ok(R2, lab)
        else:
            rep.bad(R2, construct, "%s holds %s amounts" % (lab, {"I": "incremental", "C": "cumulative"}.get(f, f)), None, lab)

    def cls(lab, s, ref, want):
        c = W.cls_of(s, ref)
        if c is None:
            rep.unk(R3, lab, "class not tracked")
        elif want in [x.split(".")[-1] for x in W.I.mro(c)]:
            rep.ok(R3, lab)
        else:
            rep.bad(R3, lab.split("(")[0], "%s returns a %s" % (lab, c), None, lab)

    for key, o in constructions(W):
        tt = key[0]
        swept(rep, R1, o, [e for e in o.s.events() if e.kind == "rep"])
        if o.failed is None:
            check(o.label, o.s, o.r, "I" if tt == "incr" else "C", "totri to %s from %s %s" % (tt, key[2], key[1]))
            cls(o.label, o.s, o.r, "IncrTriangle" if tt == "incr" else "CumTriangle")
            m = "to_cum" if tt == "incr" else "to_incr"
            x = op(W, o.label + "." + m + "()", o.s.st, lambda s: s.meth(o.r, m), "meth")
            swept(rep, R1, x, [e for e in x.s.events() if e.kind == "rep"])
            if x.failed is None:
                check(x.label, x.s, x.r, "C" if tt == "incr" else "I", m)
                cls(x.label, x.s, x.r, "CumTriangle" if tt == "incr" else "IncrTriangle")
    for o in sweep(W):
        if o.kind == "build" or o.kind == "lrdb":
            continue
        swept(rep, R1, o, [e for e in o.s.events() if e.kind == "rep"])
        if o.failed is not None:
            continue
        if o.kind == "data" and W.cls_of(o.s, o.r):
            check(o.label, o.s, o.r, "C" if "cum" in o.label else "I", "load")
            cls(o.label, o.s, o.r, "CumTriangle" if "cum" in o.label else "IncrTriangle")
        if o.kind == "estimate" and isinstance(o.r, Ref):
            for a, want in (("fitted_tri_cum", "C"), ("fitted_tri_incr", "I"), ("trisqrd", "C")):
                v = W.field(o.s, o.r, a)
                if v is not None:
                    check("%s.%s" % (o.label, a), o.s, v, want, a)
            for a, cols in FORMS.items():
                f = o.s.obj(W.field(o.s, o.r, a)) if W.field(o.s, o.r, a) is not None else None
                for c, want in cols.items() if isinstance(f, Frame) else ():
                    cell = f.cols[c].cell if c in f.cols else None
                    lab = "%s.%s[%s]" % (o.label, a, c)
                    if cell is None or cell.rep is None:
                        rep.unk(R2, lab, "form of the amounts not tracked")
                    elif cell.rep in (want, "any"):
                        rep.ok(R2, lab)
                    else:
                        rep.bad(R2, "%s: %s" % (a, c), "%s holds %s amounts" % (lab, {"I": "incremental", "C": "cumulative"}.get(cell.rep, cell.rep)), None, lab)
