"""Rules decided on symbolic value terms: C13 C15 C18."""
from .rules import *
from .sweep import *
from .rules_sweep import swept, why, failsite

CELL = "C"


def seeded_tri(W, label="build", **kw):
    """a cumulative triangle whose cells are the opaque amount C"""
    b, tri = W.tri(label, **kw)
    o = b.st.mut(tri.oid)
    o.rest = o.rest.map(lambda c: c.w(term=T.atom(CELL)))
    return b, tri


def judge(rep, rule, inst, construct, actual, expected, known, msg, at=None, scen="", needs=None):
    """known: opaque values an honest computation may mention; a different term made of those only is a different value"""
    if actual is None or expected is None:
        rep.unk(rule, inst, "value not tracked")
        return None
    r = T.same(actual, expected)
    if r:
        rep.ok(rule, inst, T.show(expected, 2)[:160])
        return True
    if r is False and T.leaves(actual) <= known | T.leaves(expected):
        rep.bad(rule, construct, "%s is %s instead of %s" % (msg, T.show(actual, 2)[:200], T.show(expected, 2)[:200]), at, scen, inst=inst)
        return False
    if r is False and needs and not (needs & T.leaves(actual)) and (T.single(actual) or ("",))[0] != "val":
        rep.bad(rule, construct, "%s is %s, which does not involve the published %s" % (msg, T.show(actual, 2)[:200], T.show(expected, 2)[:200]), at, scen, inst=inst)
        return False
    rep.unk(rule, inst, "value computed in a way the analysis does not relate to the published parts")
    return None


def parts(o, name):
    """{row kind: cell} of a series field or table column: None -> ordinary rows"""
    if o is None:
        return {}
    d = {}
    if getattr(o, "cell", None) is not None:
        d[None] = o.cell
    for a, c in getattr(o, "special", {}).items():
        d[a] = c
    return d


def total_of(d):
    for a, c in d.items():
        if a is not None and (a == "total" or getattr(a, "const", None) == "total" or str(a) == "total"):
            return c
    return None


def results(W, rep, rule, which=None, options=OPTIONS):
    """(estimator, label, scenario, fields, summary columns) of every estimate that the analysis completes"""
    b, tri = seeded_tri(W)
    for w, wrapper, vn, o in estimates(W, b.st, tri, which=which, options=options):
        if o.failed is not None:
            rep.unk(rule, o.label, "estimate always raises: " + why(o.failed))
            continue
        r = o.s.obj(o.r) if isinstance(o.r, Ref) else None
        if not isinstance(r, Inst):
            rep.unk(rule, o.label, "result object not tracked")
            continue
        f = {a: o.s.obj(v) if isinstance(v, Ref) else v for a, v in r.attrs.items()}
        summ = f.get("summary")
        cols = summ.cols if isinstance(summ, Frame) and not summ.open else None
        if cols is None:
            rep.unk(rule, o.label, "summary table not tracked")
            continue
        yield w, wrapper, vn, o, f, cols


EXTRA13 = {"base": [("tail=1.3", {"tail": k(1.3)}), ("sel=medial-5", {"sel": k("medial-5")}), ("sel=list, tail=0.9", {"sel": NUMLIST, "tail": k(0.9)}),
                    ("sel=array, tail=2", {"sel": NUMARR, "tail": k(2)})],
           "mack": [("alpha=1", {"alpha": k(1)}), ("dist=norm, two_sided", {"dist": k("norm"), "two_sided": TRUE})],
           "boot": [("sims=10", {"sims": k(10)}), ("parametric, two_sided", {"parametric": TRUE, "two_sided": TRUE}), ("seed", {"random_state": k(516)})]}


def more(w=None):
    return {a: OPTIONS[a] + EXTRA13[a] for a in OPTIONS}


# ------------------------------------------------------------------ C13
@prop("C13")
def c13(rep, W):
    R1, R2, R3, R4 = "identities-per-origin", "total-row", "ultimate-is-latest-times-factor", "attributes-are-columns"
    rep.rule(R1, "for every origin the symbolic value of reserve is ultimate - latest, of emergence 1 / cldf, and latest is the cell of the "
                 "cumulative triangle at the origin's last observed age")
    rep.rule(R2, "the symbolic value of the total row's latest, ultimate and reserve is the sum over all origins of that column")
    rep.rule(R3, "deterministic and Mack: ultimate is latest times the product of the published factors from the origin's own age on")
    rep.rule(R4, "a result's ultimate, reserve, latest, cldfs, emergence, maturity, std_error and cv equal the summary column for every row")
    names = {"ultimate": "ultimate", "reserve": "reserve", "latest": "latest", "cldfs": "cldf", "emergence": "emergence", "maturity": "maturity",
             "std_error": "std_error", "cv": "cv"}
    for w, wrapper, vn, o, f, cols in results(W, rep, R1, options=more()):
        fn = ESTIMATORS[w][1].split(".")[-1]
        P = {c: parts(x, c) for c, x in cols.items()}
        trm = lambda c, row=None: (P.get(c, {}).get(row) if row is None else total_of(P.get(c, {})))
        t = lambda c, row=None: getattr(trm(c, row), "term", None)
        for need in ("latest", "ultimate", "reserve", "cldf", "emergence"):
            if need not in P:
                rep.bad(R1, "%s summary lacks %s" % (fn, need), "%s: the summary has no column %s" % (o.label, need), None, o.label)
        known = set()
        for c in ("latest", "ultimate", "cldf", "emergence"):
            known |= T.leaves(t(c)) if t(c) is not None else set()
        ldfs = f.get("ldfs")
        lt = ldfs.cell.term if isinstance(ldfs, Ser) and ldfs.cell is not None else None
        if lt is not None:
            known |= T.leaves(lt)
        judge(rep, R1, o.label + ": reserve", "%s summary reserve" % fn, t("reserve"), T.sub(t("ultimate"), t("latest")), known, "%s: reserve of an origin" % o.label, None, o.label,
              T.leaves(t("ultimate")) if t("ultimate") is not None else None)
        judge(rep, R1, o.label + ": emergence", "%s summary emergence" % fn, t("emergence"), T.inv(t("cldf")) if t("cldf") else None, known, "%s: emergence of an origin" % o.label, None, o.label)
        lastc = T.atom("at", T.atom(CELL), T.atom("lastvalid", "D"))
        judge(rep, R1, o.label + ": latest", "%s summary latest" % fn, t("latest"), lastc, known, "%s: latest of an origin" % o.label, None, o.label)
        if w in ("base", "mack"):
            judge(rep, R3, o.label + ": product", "%s summary ultimate" % fn, t("ultimate"), T.mul(t("latest"), t("cldf")), known, "%s: ultimate of an origin" % o.label, None, o.label)
        cf = t("cldf")
        mat = t("maturity")
        if cf is not None and lt is not None:
            exp = T.atom("at", T.atom("CUMBACK", lt), mat) if mat is not None else None
            one = T.single(cf)
            if T.same(cf, exp):
                rep.ok(R3, o.label + ": own age")
            elif exp is not None and T.leaves(cf) <= T.leaves(lt) | T.leaves(exp) | T.leaves(lastc):
                rep.bad(R3, "%s summary cldf" % fn, "%s: the cumulative factor of an origin is %s instead of the product of the published factors from its own age on"
                        % (o.label, T.show(cf, 3)[:200]), None, o.label)
            else:
                rep.unk(R3, o.label + ": own age", "cumulative factor not related to the published factors")
        for c in ("latest", "ultimate", "reserve"):
            row, tot = t(c), t(c, "total")
            if trm(c, "total") is None and c in P:
                rep.bad(R2, "%s summary total row" % fn, "%s: the summary has no total row for %s" % (o.label, c), None, o.label)
                continue
            kn = known | (T.leaves(row) if row is not None else set())
            judge(rep, R2, o.label + ": total " + c, "%s summary total %s" % (fn, c), tot, T.linear("SUM", row, "allO"), kn, "%s: total %s" % (o.label, c), None, o.label)
        for a, c in names.items():
            x = f.get(a)
            if x is None or c not in P:
                continue
            A = parts(x, a) if isinstance(x, (Ser, Col)) else {}
            if not A:
                rep.unk(R4, "%s: %s" % (o.label, a), "attribute not tracked")
                continue
            for row, cell in P[c].items():
                y = A.get(row)
                inst = "%s: %s%s" % (o.label, a, "" if row is None else " (%s)" % row)
                if y is None and row is not None:
                    rep.bad(R4, "%s result.%s" % (fn, a), "%s: attribute %s has no %s row though the summary has one" % (o.label, a, row), None, o.label, inst=inst)
                elif y is None:
                    rep.unk(R4, inst, "attribute not tracked")
                elif y == cell or y.w(tags=EMPTY) == cell.w(tags=EMPTY) and y.term is not None:
                    rep.ok(R4, inst)
                else:
                    if y.term is None and cell.term is None:
                        same = y.const is not NOC and cell.const is not NOC
                        (rep.bad if same else rep.unk)(*((R4, "%s result.%s" % (fn, a), "%s: attribute %s is %r, the summary has %r" % (o.label, a, y, cell), None, o.label) if same
                                                         else (R4, inst, "values not tracked")))
                    else:
                        judge(rep, R4, inst, "%s result.%s" % (fn, a), y.term, cell.term, known | leaves_of(P), "%s: attribute %s" % (o.label, a), None, o.label)


def leaves_of(P):
    s = set()
    for d in P.values():
        for c in d.values():
            if c is not None and c.term is not None:
                s |= T.leaves(c.term)
    return s


# ------------------------------------------------------------------ C18
@prop("C18")
def c18(rep, W):
    R1, R2, R3 = "error-decomposition", "coefficient-of-variation", "distribution-parameters"
    rep.rule(R1, "std_error of every origin is the square root of published process error plus parameter error, mse its square")
    rep.rule(R2, "cv of every origin and of the total is published std_error over published reserve")
    rep.rule(R3, "the frozen distribution of every origin and of the total is norm(loc=reserve, scale=std_error) or "
                 "lognorm(s, scale) with s^2 = log(1 + (std_error/reserve)^2) and log scale = log(reserve) - s^2/2")
    alphas = [("%s%s" % (d or "lognorm", "" if a is None else ", alpha=%s" % a), dict(([("dist", k(d))] if d else []) + ([("alpha", k(a))] if a is not None else [])))
              for d in (None, "norm", "lognorm") for a in (None, 0, 1, 2)] + [("two_sided", {"two_sided": TRUE}), ("q=0.9, norm", {"q": k(0.9), "dist": k("norm")}),
              ("alpha=any number", {"alpha": NUMBER("alpha")}), ("alpha=any number, norm", {"alpha": NUMBER("alpha"), "dist": k("norm")})]
    for w, wrapper, vn, o, f, cols in results(W, rep, R1, which=["mack"], options={"mack": alphas}):
        fn = "MackChainLadder"
        P = {c: parts(x, c) for c, x in cols.items()}
        known = leaves_of({c: P[c] for c in ("reserve", "ultimate", "latest", "cldf", "std_error") if c in P})
        t = lambda c, row=None: getattr(P.get(c, {}).get(None) if row is None else total_of(P.get(c, {})), "term", None)
        pe, qe = f.get("process_error"), f.get("parameter_error")
        ct = lambda x: x.cell.term if isinstance(x, Ser) and x.cell is not None else None
        for x in (pe, qe):
            if ct(x) is not None:
                known |= T.leaves(ct(x))
        ssum = T.add(ct(pe), ct(qe))
        judge(rep, R1, o.label + ": std_error", "%s std_error" % fn, t("std_error"), T.power(ssum, (T.F(1, 2), T.F(0))), known, "%s: std_error of an origin" % o.label, None, o.label)
        m = f.get("mse")
        for row in (None, "total"):
            y = m and (parts(m, "mse").get(None) if row is None else total_of(parts(m, "mse"))) if isinstance(m, Ser) else None
            if y is not None:
                judge(rep, R1, "%s: mse %s" % (o.label, row or ""), "%s mse" % fn, y.term, T.power(t("std_error", row), (T.F(2), T.F(0))), known, "%s: mse" % o.label, None, o.label)
            judge(rep, R2, "%s: cv %s" % (o.label, row or "origin"), "%s cv of %s" % (fn, row or "an origin"), t("cv", row), T.div(t("std_error", row), t("reserve", row)), known,
                  "%s: cv of %s" % (o.label, row or "an origin"), None, o.label)
        rvs = f.get("rvs")
        if not isinstance(rvs, Ser):
            rep.unk(R3, o.label, "distributions not tracked")
            continue
        D = parts(rvs, "rvs")
        want = "norm" if "norm" in vn and "lognorm" not in vn else "lognorm"
        for row in (None, "total"):
            c = D.get(None) if row is None else total_of(D)
            if c is None and row is not None:
                c = D.get(None)
            inst = "%s: distribution of %s" % (o.label, row or "an origin")
            con = "%s distribution of %s" % (fn, row or "an origin")
            d = getattr(c, "const", None)
            if not hasattr(d, "dist"):
                rep.unk(R3, inst, "distribution not tracked")
                continue
            if d.dist != want:
                rep.bad(R3, con, "%s is %s" % (inst, d.dist), None, o.label)
                continue
            zero = ()
            term = lambda x, default: default if x is None else x.term
            if total_of(D) is None:
                # one distribution expression for all rows: its parameters are row-wise functions of the summary columns
                pass
            res, se = t("reserve", row), t("std_error", row)
            if want == "norm":
                judge(rep, R3, inst + " mean", con + " mean", term(d.loc, zero), res, known, inst + ": mean", None, o.label)
                judge(rep, R3, inst + " std", con + " scale", term(d.scale, T.ONE), se, known, inst + ": scale", None, o.label)
            else:
                cv2 = T.power(T.div(se, res), (T.F(2), T.F(0)))
                s2 = T.atom("log", T.add(T.ONE, cv2))
                judge(rep, R3, inst + " shape", con + " shape", term(d.shape, None), T.power(s2, (T.F(1, 2), T.F(0))), known, inst + ": shape", None, o.label)
                logr = T.atom("log", res)
                judge(rep, R3, inst + " scale", con + " scale", term(d.scale, T.ONE), T.atom("exp", T.sub(logr, T.mul(T.const(T.F(1, 2)), s2))), known, inst + ": scale", None, o.label)
                if d.loc is not None:
                    judge(rep, R3, inst + " loc", con + " loc", d.loc.term, zero, known, inst + ": loc", None, o.label)


# ------------------------------------------------------------------ C15
ORD = {1: "st", 2: "nd", 3: "rd"}


def ordinal(p):
    return "th" if p % 100 in (11, 12, 13) else ORD.get(p % 10, "th")


def label_number(s):
    """(number, rest) of a column label such as 97.5% or 21st"""
    i = 0
    while i < len(s) and (s[i].isdigit() or s[i] in ".-+e"):
        i += 1
        if s[i - 1] == "e":
            i -= 1
            break
    try:
        return float(s[:i]), s[i:]
    except ValueError:
        return None, s


@prop("C15")
def c15(rep, W):
    R1, R2, R3 = "label-names-content", "every-requested-quantile", "ordinal-form"
    rep.rule(R1, "the symbolic value of a column labelled p is the p-th percentile of the published reserve distribution of that row's own origin "
                 "(Mack: the row's frozen distribution; bootstrap: the simulated reserves filtered on equality with the row's origin)")
    rep.rule(R2, "the labelled columns are exactly the requested probabilities, or the bounds of the requested central intervals when two-sided, "
                 "for any order, repetition or container of the request")
    rep.rule(R3, "labels of quantile tables carry the English ordinal of the percentage they state")
    b, tri = seeded_tri(W)
    num = Cell(dim=D0, dt="num", term=T.atom("q"))
    lists = [("scalar .9", [.9], lambda s: k(.9)), ("[.95, .5]", [.95, .5], None), ("[.5, .9975, .5]", [.5, .9975, .5], None), ("[.25, .1, .975]", [.25, .1, .975], None),
             ("[0, 1.]", [0, 1.], None), ("[.865, .01]", [.865, .01], None), ("tuple", [.75, .3], lambda s: s.lst([k(.75), k(.3)], "tuple")),
             ("array of unknown probabilities", None, lambda s: s.arr(num)), ("list of unknown probabilities", None, lambda s: s.manylst(num)),
             ("unknown scalar", None, lambda s: Sc(num))]
    full = rep.tier == "thorough"
    if full:
        lists += [("[%d..%d]%%" % (i, i + 9), [j / 100. for j in range(i + 9, i - 1, -1)], None) for i in range(0, 100, 10)]

    def content(inst, con, col, pterm, rows, lab):
        """rows: row kind -> function(pterm) giving the expected term and its known leaves"""
        for row, cell in [(None, col.cell)] + [(a, c) for a, c in col.special.items()]:
            if row not in rows or cell is None:
                continue
            if cell.const is not NOC and isinstance(cell.const, float) and cell.const != cell.const:
                continue
            exp, known = rows[row]
            i2 = inst + ("" if row is None else " (%s)" % row)
            if exp is None:
                rep.unk(R1, i2, "distribution not tracked")
                continue
            exps = exp(pterm)
            if any(T.same(cell.term, e) for e in exps) if cell.term is not None else False:
                rep.ok(R1, i2, T.show(exps[0], 2)[:160])
            else:
                judge(rep, R1, i2, con, cell.term, exps[0], known | (T.leaves(pterm) if pterm is not None else set()), "%s: the column labelled %s" % (inst, lab), None, inst)

    def columns(inst, con, cols, want, two_sided, rows, form, skip):
        have = []
        for c, x in cols.items():
            if c in skip:
                continue
            if isinstance(c, AbsStr):
                if c.src is None:
                    rep.unk(R1, inst, "label not tracked")
                elif c.kind.lstrip("~").startswith("num"):
                    content("%s: generic column" % inst, con + " column", x, c.src, rows, repr(c))
                else:
                    rep.unk(R1, inst, "label not tracked")
                continue
            if not isinstance(c, str):
                continue
            v, suf = label_number(c)
            if v is None:
                continue
            have.append(v)
            content("%s: %s" % (inst, c), "%s column" % con, x, T.const(T.F(c[:len(c) - len(suf)])), rows, c)
            if form == "%":
                (rep.ok if suf == "%" else rep.bad)(*((R3, "%s: %s" % (inst, c)) if suf == "%" else (R3, con + " label form", "%s: column %r is not labelled as a percentage" % (inst, c), None, inst)))
            else:
                e = ordinal(int(v)) if v == int(v) else "th"
                if suf == e:
                    rep.ok(R3, "%s: %s" % (inst, c))
                else:
                    rep.bad(R3, "%s ordinal" % con, "%s: %r should read %s%s" % (inst, c, c[:len(c) - len(suf)], e), None, inst)
        if want is None:
            return
        exp = sorted({round(50 * (1 + sg * q), 9) for q in want for sg in (-1, 1)} if two_sided else {round(100 * q, 9) for q in want})
        got = sorted(have)
        if len(exp) == len(got) and all(abs(a - b_) < 1e-5 for a, b_ in zip(exp, got)):
            rep.ok(R2, inst, str(exp))
        elif any(isinstance(c, AbsStr) for c in cols):
            rep.unk(R2, inst, "labels not tracked")
        else:
            rep.bad(R2, "%s columns" % con, "%s: columns %s, requested %s" % (inst, got, exp), None, inst)

    def expected(w, s, r):
        if w == "mack":
            rvs = W.field(s, r, "rvs")
            o = s.obj(rvs) if isinstance(rvs, Ref) else None
            out = {}
            for row, c in parts(o, "rvs").items() if o is not None else ():
                d = c.const
                if not isinstance(d, RVC):
                    out[row] = (None, set())
                    continue
                tm = d.term()
                known = set()
                for y in (d.loc, d.scale, d.shape):
                    if y is not None and y.term is not None:
                        known |= T.leaves(y.term)
                for c2 in parts(o, "rvs").values():
                    if isinstance(c2.const, RVC):
                        for y in (c2.const.loc, c2.const.scale, c2.const.shape):
                            if y is not None and y.term is not None:
                                known |= T.leaves(y.term)
                out[row] = ((lambda p, tm=tm: [T.atom("PCT", tm, p)]) if tm is not None else None, known)
            out.setdefault("total", (None, set()))
            return out
        rd = W.field(s, r, "reserve_dist")
        o = s.obj(rd) if isinstance(rd, Ref) else None
        res = o.cols.get("reserve") if isinstance(o, Frame) else None
        if res is None or res.all().term is None:
            return {None: (None, set()), "total": (None, set())}
        tm = res.all().term
        known = set()
        for c in o.cols.values():
            if c.all().term is not None:
                known |= T.leaves(c.all().term)
        f = lambda toks: lambda p: [T.atom("PCT", T.atom("rows", tm, x), p) for x in toks]
        anyrow = ("cmp:Eq:?:?",)
        own = ("cmp:Eq:?:O", "cmp:Eq:O:?", "by:O", "cmp:Eq:O:O") + anyrow
        return {None: (f(own), known),
                "total": (f(("cmp:Eq:'total':?", "cmp:Eq:?:'total'", "cmp:Eq:?:total", "cmp:Eq:total:?") + own), known)}

    base = {}
    for w in ("mack", "boot"):
        con = ESTIMATORS[w][1].split(".")[-1]
        for ln, want, mk in lists:
            for ts in (FALSE, TRUE):
                for extra in ([{}, {"dist": k("norm")}] if w == "mack" else [{}, {"sims": WHOLE("sims")(None)}] + ([{"interpolation": k("lower")}, {"parametric": TRUE}] if full else [])):
                    inst = "%s(q=%s%s%s)" % (con, ln, ", two_sided" if ts is TRUE else "", "".join(", %s=%s" % (a, v.cell.const) for a, v in extra.items()).replace("=·", "=any"))
                    s = W.scn(inst, b.st)
                    q = mk(s) if mk is not None else s.lst([k(x) for x in want])
                    try:
                        r = W.estimate(s, tri, w, q=q, two_sided=ts, **extra)
                    except Failed as e:
                        W.failures.append((inst, s, e))
                        rep.unk(R1, inst, "always raises: " + why(e))
                        continue
                    if w not in base:
                        base[w] = (s, r)
                    sm = W.field(s, r, "summary")
                    sm = s.obj(sm) if isinstance(sm, Ref) else None
                    if not isinstance(sm, Frame) or sm.open:
                        rep.unk(R1, inst, "summary not tracked")
                        continue
                    std = {"maturity", "cldf", "emergence", "latest", "ultimate", "reserve", "std_error", "cv"}
                    columns(inst, con + " summary", sm.cols, want, ts is TRUE, expected(w, s, r), "%", std)
    # quantile tables of results
    more = [("all percentages %d-%d" % (i, min(i + 9, 100)), [j / 100. for j in range(min(i + 9, 100), i - 1, -1)], None) for i in range(0, 101, 10)]
    for w, (s0, r) in base.items():
        con = ESTIMATORS[w][1].split(".")[-1] + "Result.get_quantiles"
        for ln, want, mk in lists[:10] + more:
            for extra in ([{}] if w == "mack" else [{}, {"interpolation": k("higher")}]):
                if extra and not full and ln != "[.95, .5]":
                    continue
                inst = "%s(q=%s%s)" % (con, ln, "".join(", %s=%s" % (a, v.cell.const) for a, v in extra.items()).replace("=·", "=any"))
                s = W.scn(inst, s0.st)
                q = mk(s) if mk is not None else s.lst([k(x) for x in want])
                try:
                    t = s.meth(r, "get_quantiles", q=q, **extra)
                except Failed as e:
                    W.failures.append((inst, s, e))
                    rep.unk(R1, inst, "always raises: " + why(e))
                    continue
                o = s.obj(t) if isinstance(t, Ref) else None
                if not isinstance(o, Frame) or o.open or not o.cols:
                    rep.unk(R1, inst, "table not tracked")
                    continue
                columns(inst, con, o.cols, want, False, expected(w, s, r), "ord", ())
