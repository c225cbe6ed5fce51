"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
T="trikit/triangle.py"; U="trikit/utils.py"; B="trikit/estimators/base.py"; M="trikit/estimators/mack.py"; S="trikit/estimators/bootstrap.py"; I="trikit/__init__.py"; D="trikit/datasets/__init__.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
                 "mechanism":[dict(zip(("name","where"),m)) for m in mech],"observe_at":list(obs),"hook_needed":None}})
p("C01","Caller-supplied data and arguments are never modified",
  "Building a triangle from a table or a triangle-shaped frame, loading data, running any estimator and calling any result method leaves every object the caller passed in (data frames, custom development factors, quantile lists, plot option dictionaries) exactly as it was: same values, same columns, same length. This holds whichever combination of options is used.",
  ["inputs","configurations"],"every input object x every combination of tri_type/data_format/data_shape, estimator arguments and plot options",
  "Tests pass throw-away inputs and never look at them again after the call; only a whole-program alias argument covers every option path.",
  [T,B,M,S,U],[("conversion entry point and triangle constructors",T+": totri, _BaseTriangle, _BaseCumTriangle"),("custom factor handling",B+": BaseChainLadder.__call__")],
  [("data","the caller's frame",T+": totri"),("sel","caller's development factors",B+": BaseChainLadder.__call__")],["the argument objects after the call returns"])
p("C02","Queries, conversions, estimates and plots never alter a triangle or result",
  "Reading any attribute of a triangle, converting it, projecting it with any estimator, asking a result for quantiles, residuals or tests, and drawing any exhibit leave the triangle's cells, its link-ratio selections, and every table published by a result unchanged. Internal memoisation may be filled in but never changes an answer.",
  ["histories","configurations"],"every sequence of public read-only operations on one triangle and the results obtained from it",
  "Tests call one operation on a fresh object; none checks the triangle or the result afterwards, and no finite sample covers all sequences.",
  [T,B,M,S],[("copy before write in every estimator",B+": _trisqrd; "+M+": mod_tri, _process_error; "+S+": _tri_fit_cum"),("result exhibits",S+": BootstrapChainLadderResult.hist/plot")],
  [("triangle cells","loss amounts",T+": _BaseTriangle"),("a2aind","link ratio selections",T+": _BaseCumTriangle.a2aind"),("reserve_dist, sims_data, summary, trisqrd","published result tables",B+", "+S)],["the triangle and result tables after the call"])
p("C03","Separate calls, triangles and results share no mutable state",
  "The outcome of an operation depends only on the triangle it is applied to and its own arguments: never on which other operations, with other arguments or on other triangles, ran before. Results of separate calls share no mutable table, list or array with each other or with a function's default arguments, so editing one never changes another or any later call.",
  ["histories","configurations"],"every pair of calls on the same or different triangles, with any arguments, in any order",
  "Every test builds fresh objects and makes one call with one argument set; state leaking through caches, class attributes or default arguments only shows in multi-call histories.",
  [T,B,M,S,U,I],[("per-instance memo slots initialised in constructors",T+": _BaseTriangle.__init__"),("estimator constructed per call",T+": CumTriangle.base_cl/boot_cl/mack_cl")],
  [("memo slots","underscore attributes holding derived tables",T),("q defaults","list-valued defaults",T+", "+M+", "+S)],["results of a second call"])
p("C04","Link-ratio exclusions take effect in every later estimate",
  "Once a user marks an age-to-age factor as excluded (or re-included), every average of age-to-age factors, every deterministic chain ladder and every Mack estimate produced afterwards from that triangle - including the volume-weighted averages - reflects the new selection, even if averages or estimates were already computed before.",
  ["histories","inputs"],"every exclusion set at any point of any sequence of queries and estimates",
  "No test ever changes the selections; staleness depends on the order of operations, and one average family can silently ignore the selections.",
  [T,B,M],[("selection table and setter",T+": _BaseCumTriangle.a2aind"),("averages computed on demand",T+": _BaseCumTriangle.a2a_avgs"),("Mack weights",M+": MackChainLadder.mod_a2aind")],
  [("_a2aind","0/1 selection table",T)],["a2a_avgs(), base_cl(), mack_cl() after setting a2aind"])
p("C05","A seeded bootstrap is reproducible and nothing else is random",
  "With a seed or a generator supplied, every random draw of the bootstrap comes from that seed or generator, whatever integer type or value the seed has, so the same triangle, arguments and seed always give the same result. Every other operation (loading, conversion, chain ladder, Mack, quantiles, diagnostics tests) is deterministic and neither uses nor disturbs the process-wide random state.",
  ["inputs","configurations","histories"],"all seeds (including 0 and numpy integers), both resampling modes, every other option, any prior use of the global generator",
  "Tests use one seed once per stage and compare loose sums; they never repeat a run, never pass seed 0, a numpy integer or a generator, and never look at the global state.",
  [S,M],[("generator construction",S+": _bs_samples, _bs_process_error"),("seed forwarding",S+": BootstrapChainLadder.__call__")],
  [("prng","generator in use",S)],["boot_cl results for equal seeds; numpy global state"])
p("C06","Triangle content is independent of record order; duplicates add up",
  "A triangle built from a table depends only on the set of records: permuting the rows never changes a cell, and several records for the same origin and development period contribute their sum, for incremental and cumulative data and for either triangle type.",
  ["inputs","configurations"],"every permutation of the records and every split of a cell over several records, for each tri_type x data_format",
  "Test data is always sorted with one record per cell.",
  [T],[("aggregation by origin and development period",T+": _BaseTriangle.__init__"),("running totals per origin",T+": _BaseCumTriangle.__init__; totri")],
  (),["cells of the triangle returned by totri"])
p("C07","Period labels only identify periods",
  "Estimates and conversions depend on origin and development labels only as ordered identifiers: renumbering the development periods (for example 0,1,2,... or 12,24,36,... instead of 1,2,3,...) or the origin years at a constant step leaves every factor, reserve, error, residual and simulated amount unchanged apart from the labels themselves.",
  ["inputs"],"every equally spaced relabelling of the origin and development periods of any triangle",
  "Nearly every test uses development periods 1..10; one Mack test uses 12,24,... and none relabels for the bootstrap or the queries.",
  [T,B,M,S],[("label increments computed from the index",B+": _ldfs; "+M+": _ldfs"),("first-period detection",S+": _bs_samples, _bs_forecasts")],
  (),["summary and simulation tables under relabelling"])
p("C08","Column and index names chosen by the user work everywhere",
  "A triangle built from data whose origin, development and value columns (or, for triangle-shaped data, whose index) carry any names supports every query, conversion, estimator and plot, and yields the same numbers as the same data with the default names.",
  ["inputs","configurations"],"every choice of the three column names and of the index name x every public operation",
  "One test constructs a triangle with other names and checks only its type; no operation is ever applied to it.",
  [T,B,M,S],[("name arguments stored on the triangle",T+": _BaseTriangle.__init__"),("tabular export",T+": _BaseTriangle.to_tbl, latest")],
  (),["every public method on a triangle built with custom names"])
p("C09","Every public operation resolves its own names, columns and call signatures",
  "Every documented method and attribute of triangles, estimators and results can be used with its default options on a regular triangle without failing on an internal inconsistency: a name that may be unassigned, a table column or attribute that does not exist, or an internal call whose arguments do not match the callee.",
  ["configurations","inputs"],"every public operation x every combination of boolean and enumerated options",
  "The plotting, diagnostics and residual methods are not executed by any test, and several option branches never are.",
  [T,B,M,S,U],[("result methods",B+", "+M+", "+S),("shared helpers overridden between estimator and result classes",B+": _qtls_formatter")],
  (),["absence of internal NameError/KeyError/AttributeError/TypeError"])
p("C10","Unknown options are rejected, never silently reinterpreted",
  "An unrecognised triangle type, data format, data shape, reserve distribution, process distribution, dataset name, loss type or line of business, and any quantile outside [0, 1], is rejected with an explicit error naming the option instead of being treated as some other choice or failing later on an unrelated error. (Triangle type, data format and loss type may be abbreviated: they are recognised by their first letter.)",
  ["inputs","configurations"],"every invalid value of each enumerated option and every out-of-range quantile, alone or inside a list",
  "No test passes an invalid option.",
  [T,B,M,S,U],[("option dispatch",T+": totri; "+M+": __call__; "+S+": _bs_process_error; "+U+": _load, _load_lrdb"),("quantile validation",B+": _qtls_formatter")],
  (),["exception raised by the public call"])
p("C11","Every accepted option influences the outcome and is recorded faithfully",
  "Each documented estimator option (selection of factors, tail, alpha, distribution, quantiles, one- or two-sided intervals, number of simulations, resampling mode, interpolation, seed, process distribution) reaches the computation it governs, and the options a result reports are the ones it was produced with. Calling an estimator through the triangle's convenience method and through the estimator class with the same arguments, or with defaults, means the same thing.",
  ["configurations"],"every option of every estimator, alone and combined, through both entry points",
  "Tests use default options except for a few; a dropped or swapped option only shows when that option is set to a non-default value.",
  [T,B,M,S],[("keyword forwarding",T+": base_cl, boot_cl, mack_cl"),("result construction",B+", "+M+", "+S+": __call__")],
  (),["attributes and summary of the result"])
p("C12","Estimates are equivariant under a change of currency unit",
  "Multiplying every loss amount by a positive constant multiplies every projected amount, reserve, standard error and reserve quantile by that constant and leaves every development factor, ratio, coefficient of variation and standardised residual unchanged, for every estimator and every option (including every alpha), as long as first-period amounts are positive.",
  ["inputs","configurations"],"every positive scale factor x every triangle x every estimator option",
  "Each test uses one dataset in one unit; a unit-dependent constant, threshold or rounding that is negligible there goes unnoticed.",
  [T,B,M,S],[("variance recursion",M+": _devp_variance, _ldf_variance, _process_error, _parameter_error"),("residual scaling",S+": _resid_us, _scale_param; "+M+": _residuals_by_devp, _residuals_by_origin")],
  (),["summary, errors, residuals"])
p("C13","The summary table is internally consistent",
  "In every estimator's summary, for every origin, reserve equals ultimate minus latest and emergence is the reciprocal of the cumulative factor; in the deterministic and Mack chain ladder the ultimate is the latest amount times the cumulative factor for that origin's own age. The total row holds the sums of latest, ultimate and reserve over all origins, and the result's separate attributes equal the corresponding summary columns.",
  ["inputs","configurations"],"every triangle, factor selection, tail and estimator",
  "Tests compare column sums on two square triangles; identities per origin, with tails, custom factors or triangles whose origins are unequally mature are not sampled.",
  [B,M,S],[("ultimate, reserve and summary compilation",B+": _ultimates, _reserves, __call__"),("bootstrap and Mack compilation",S+": __call__; "+M+": __call__")],
  (),["summary and the published attributes"])
p("C14","Bootstrap simulations are mutually isolated",
  "Each simulated triangle, its development factors, its projection and its reserve are computed from that simulation's own draws only: no value of one simulation, or of another origin's development path, leaks into another through a running total, shift or aggregate, for any triangle shape and any number of simulations.",
  ["inputs","configurations"],"every triangle shape, number of simulations and resampling mode",
  "Tests compare grand totals over all simulations on one square triangle; leaks at simulation boundaries are invisible there.",
  [S],[("keyed running totals",S+": _bs_samples, _bs_ldfs, _bs_forecasts, _bs_process_error")],
  (),["sims_data and reserve_dist"])
p("C15","Quantile labels always name the quantile they hold",
  "Every quantile column of a summary or a quantile table contains the reserve quantile its label states, for any order, repetition or two-sided expansion of the requested probabilities, and labels use the correct ordinal form.",
  ["inputs","configurations"],"every list of probabilities in any order, one- or two-sided, for Mack and bootstrap",
  "Tests use the default ascending pair only.",
  [B,M,S],[("label formatting",B+": _qtls_formatter"),("quantile evaluation",M+": __call__, get_quantiles; "+S+": __call__, get_quantiles")],
  (),["summary columns and get_quantiles tables"])
p("C16","Every advertised sample dataset loads as a well-formed table",
  "Each name returned by the dataset listing is a shipped file with integer origin and development columns and a numeric value column holding incremental amounts, with one record for every observed cell, loads under that name as exactly those three columns in that order (or as the requested triangle type), and no other name is accepted.",
  ["inputs","configurations"],"every registered name x every tri_type, every other string",
  "Tests check one total per dataset and never the listing against what can be loaded.",
  [U,I,D],[("registry",D+": dataref"),("loader",U+": _load, _get_datasets")],
  (),["load(), get_datasets()"])
p("C17","No process-wide side effects outside plotting",
  "Importing the package, building triangles, and estimating never change process-wide settings (warning filters, numpy error state or random state, pandas options, matplotlib or seaborn configuration, working directory, environment) and never write files; plotting libraries are loaded only when an exhibit is drawn, temporary settings are scoped, and an exhibit is written only to the path the caller gave.",
  ["configurations","histories"],"every public operation",
  "Tests never inspect global settings.",
  [T,B,M,S,U,I],[("function-local plotting imports",T+", "+B+", "+M+", "+S),("scoped settings","with np.errstate / warnings.catch_warnings / sns.axes_style")],
  (),["global configuration after a call"])
p("C18","Mack prediction error decomposes consistently",
  "For every origin the reported standard error is the square root of process plus parameter error and the coefficient of variation is the standard error over the reserve; the total's coefficient of variation is its standard error over its reserve, and the fitted reserve distribution of every origin and of the total has the reported reserve and standard error as its parameters for both the normal and the log-normal option.",
  ["inputs","configurations"],"every triangle, alpha and distribution",
  "Tests compare a few sums for alpha=1 on one dataset.",
  [M],[("error assembly",M+": __call__, _mean_squared_error")],
  (),["summary, process_error, parameter_error, rvs"])
p("C19","Incremental and cumulative amounts are never confused",
  "Whatever the form of the input (tabular or triangle-shaped, incremental or cumulative), an incremental triangle holds incremental amounts and a cumulative triangle holds cumulative amounts of the same experience; converting between the two forms preserves the experience, and every estimator combines like with like.",
  ["inputs","configurations"],"all eight combinations of input form and triangle type, and both conversions, for any data",
  "The tests of the eight combinations check only the type of the returned object (one of them even feeds incremental data as cumulative).",
  [T,B,M,S],[("conversion",T+": totri, to_cum, to_incr, _BaseCumTriangle.__init__"),("fitted and resampled amounts",S+": _tri_fit_incr, _resid_us, _bs_samples")],
  (),["triangle cells; residuals"])
p("C20","Reserve estimates quantify the correct sampling distribution",
  "Over repeated experience from the model, the bootstrap predictive distribution and the Mack standard error have the coverage they claim, including the degrees of freedom used to scale the residuals.",
  ["inputs"],"every data-generating process satisfying the model assumptions",
  "Tests freeze the numbers one implementation produced.",[S,M],[("degrees of freedom, scale, resampling",S)])
p("C21","Age-to-age averages match the kind, window and link ratios of their row labels",
  "For every triangle and every state of the link-ratio indicator, the row of the averages table labelled <kind>-<n> holds, in the column of each development period, the <kind> average of that period's own link ratios over the n origins that end with the period's last available link ratio (all of them if there are fewer than n), and all-<kind> the average over all of them; link ratios that are missing or left out by the indicator take no part. simple is the arithmetic mean, geometric the geometric mean, medial the arithmetic mean of the values strictly between the smallest and the largest (the plain mean of one or two values, the common value when all are equal), weighted the sum of the later amounts over the sum of the earlier amounts of the same cells. An average of no link ratios is missing and never an error.",
  ["inputs","configurations"],"every triangle incl. ties, single values, gaps and exclusions, every n",
  "Tests check only the all-year weighted factors of one dataset without gaps or exclusions.",[T],[("averages",T+": a2a_avgs, _medial, _geometric, _simple"),("link ratios and indicator",T+": a2a, a2aind")],
  (),["a2a_avgs()"])
p("C22","Significance tests report the interval and statistic of Mack's procedure",
  "For every triangle and every level p: a link ratio is classed large (small) exactly when it is above (below) the median of its development period's link ratios, and neither when it equals it (up to floating-point rounding only). Given the numbers S_j, L_j of small and large link ratios on each diagonal j, with Z_j = min(S_j, L_j), n = S_j + L_j, m = floor((n-1)/2), the calendar-year test's statistic is the sum of Z_j, and its interval is E -+ z*sqrt(V), E the sum of n/2 - C(n-1,m)*n/2^n, V the sum of n(n-1)/4 - C(n-1,m)*n(n-1)/2^n + E_j - E_j^2, z the standard normal quantile leaving p/2 above. The correlation test ranks, for every two adjacent development periods, the link ratios of the origins that have both (ties share the average rank, same order on both sides, each column paired with its own neighbour), takes Spearman's 1 - 6*sum(d^2)/(n^3-n) of each pair, and its statistic is the mean weighted by n-1, its interval -+ z over the root of (I-2)(I-3)/2 with probability p between -z and z (I development periods). The lower limit comes first.",
  ["inputs","configurations"],"every triangle incl. ties and small triangles, every level p",
  "Tests check one dataset at the default level; classes, ties and other levels never show.",[M,T],[("tests",M+": devp_corr_test, _spearman_corr_*, cy_effects_test, _cy_effects_table"),("classes and ranks",T+": a2a_assignment, ranked_a2a")],
  (),["devp_corr_test(), cy_effects_test()"])
p("C23","Missing amounts stay missing except where completion fills them",
  "An amount that is absent from the input (no record, or a record without an amount) never appears as an observed number, in particular not as zero, in an incremental or cumulative triangle, and converting between the two forms neither loses nor counts twice the amounts next to a gap. When totri completes a cumulative triangle, observed cells are never altered, a missing cell is filled only when it lies before the last observation of its development period, with the same origin's amount one development period earlier (a missing first period: a positive constant), and every other cell stays empty. The last observation of an origin or development period is found by position, not by counting amounts, and the triangle's descriptions of it (triind, clvi, rlvi, latest) describe the finished triangle.",
  ["inputs","configurations"],"every pattern of missing records or missing amounts x every input form, triangle type and conversion",
  "The sample datasets have no gaps, so no test ever builds a triangle with a missing cell inside the observed region.",
  [T],[("fill-in loop",T+": totri"),("conversion around gaps",T+": to_incr, to_cum, _BaseCumTriangle.__init__"),("last observation",T+": rlvi, clvi, triind, latest")],
  (),["cells of the triangle; triind, clvi, rlvi, latest"])
p("C24","The projected triangle follows the development factors cell by cell",
  "For every triangle with as many origins as development periods: every cell of a result's projected triangle below the last observation of its development period equals the projected cell of the same origin one development period earlier times the published factor of that earlier period, every development period but the first is projected for exactly the origins not observed there, and the ultimate column is the last development period times the last (tail) factor. The bootstrap's fitted cumulative triangle divides backwards in the same way: a fitted cell is the next period's fitted cell over the factor of its own period, starting at the latest observed amount, and the first fitted incremental amount of an origin is its first fitted cumulative amount.",
  ["inputs","configurations"],"every such triangle, selection of factors, tail, alpha",
  "Tests compare column sums for one dataset and the default factors; off-by-one origins or factors that cancel, or matter only for a tail or a custom selection, never show.",
  [B,M,S],[("projection",B+": _trisqrd"),("fitted triangle",S+": _tri_fit_cum, _tri_fit_incr")],
  (),["trisqrd, fitted_tri_cum, fitted_tri_incr"])
p("C25","Mack factors and errors follow the published recursions for every alpha",
  "For every triangle with as many origins as development periods and every alpha: Mack's factors are the weighted means of the observed ratios with weights w*C^alpha; the variance parameter of development period p (of n, counted from 0) is the weighted squared deviation over n-p-2, that of the last period min(a^2/b, a, b) of the two before it; the process and parameter error of the first projected cell of an origin and of every later one follow Mack's recursions from the cell before; and the total's squared standard error is the sum over origins of their mean squared error plus the covariance term with all later origins.",
  ["inputs","configurations"],"every such triangle, every alpha, every link-ratio selection",
  "Tests compare sums for alpha=1 on one dataset, where an exponent of 2-alpha and of alpha are the same.",
  [M],[("factors",M+": _ldfs"),("variance parameters",M+": _devp_variance, _ldf_variance"),("recursions",M+": _process_error, _parameter_error"),("total",M+": __call__")],
  (),["ldfs, devpvar, ldfvar, process_error, parameter_error, summary std_error"])
p("C26","The bootstrap uses Pearson residuals, their scale and matching process noise",
  "For every triangle with as many origins as development periods and every bootstrap call: the unscaled residual of a cell is (observed - fitted incremental amount) / sqrt(|fitted|); adjusted residuals are the unscaled ones times sqrt(number of cells / degrees of freedom); the scale parameter is the sum of the squared unscaled residuals over the degrees of freedom; exactly the adjusted residuals that are neither missing nor zero are resampled (parametrically: from a normal distribution with mean 0 and their standard deviation); a resampled incremental amount is the fitted one (1 in place of a negative one in the first development period) plus a residual times sqrt(|fitted|); the process variance of a simulated amount is its absolute value times the scale parameter, and gamma noise is drawn with that absolute value as its mean and that process variance as its variance and gets the sign of the amount.",
  ["inputs","configurations"],"every triangle incl. fitted amounts of either sign, parametric or not, with or without process error",
  "Tests pin sums of residuals on one dataset whose fitted amounts are all positive; signs, the moments of a draw and which residuals are drawn are random-looking numbers no test checks.",
  [S],[("residuals",S+": _resid_us, _resid_adj, _scale_param, _sampling_dist"),("resampling",S+": _bs_samples"),("process noise",S+": _bs_forecasts, _bs_process_error")],
  (),["unscaled_residuals, adjusted_residuals, scale_param, sampling_dist, sims_data"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
