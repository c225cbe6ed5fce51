"""known-findings.txt from the list of repairs (run once per new repair; the checks never write it)"""
F = """1a784fa C01 base_cl(sel=Series) appended the tail factor to the caller's Series
8251a97 C01 the CumTriangle/IncrTriangle constructors and totri replaced columns of the caller's table
03794cc C02 hist() wrote into the published reserve_dist
8519ca5 C03 a bootstrap result kept the caller's (or the default) quantile list as its own q
62ae60f C04 volume-weighted averages ignored excluded link ratios; the a2aind setter did nothing
54395af C04 a reused Mack estimator kept the exclusions of its first run
ce68f18 C05 a seed of 0 or of a numpy integer type was ignored, so the bootstrap was not reproducible
1beaa46 C05 devp_corr_test drew its starting point from the process-wide random state
8251a97 C06 cumulative triangles depended on record order and dropped duplicate records
b226fae C07 the bootstrap took the smallest development label to be 1
d49bf25 C08 custom column names and named indexes broke latest, maturity, to_tbl, estimators and plots
c006b7a C09 MackChainLadderResult.diagnostics read a column that does not exist
50d9883 C09 MackChainLadderResult.plot failed on names that do not exist
9dd1a08 C09 BaseChainLadderResult.plot passed hue_kws the grid does not accept
df89bb8 C09 residuals_detail indexed a scalar mode
c9026ec C09 result _qtls_formatter did not accept two_sided
f47fe4e C09 the faceted triangle plot set labels without ticks
02d8e64 C09 negative fitted increments gave NaN residuals (sqrt of a negative number)
da748aa C09 diagnostics compared the "ultimate" column label with development numbers
c269fe7 C09 quantiles by development period used a signature the grouped frame does not have
27e2ec7 C10 totri accepted unknown tri_type and data_format values
3d20517 C10 load accepted names that are not in the listing and failed later
3d20517 C16 load accepted a name that get_datasets does not list
9dd1a08 C11 hue_kws given by the caller were dropped
3c81820 C12 Mack alpha other than 1 mixed powers of the amounts
0014caf C12 residual sigma combined an amount with a variance (operator precedence)
b2cb6fa C12 the lognormal location combined a logarithm with an unscaled variance
c96b853 C13 cumulative factors in the summary were those of the reversed development order
209432c C14 a shift over all simulations leaked the previous simulation's value into the next
bfb8fce C15 ordinals of 11, 12 and 13 were written 11st, 12nd, 13rd
45c2930 C04 the total standard error of Mack summed volumes of excluded link ratios
812aa00 C17 exhibits left seaborn's plotting context changed for the rest of the process
72a90fe C23 the increment that follows a gap of a cumulative triangle was lost, and with it part of the origin's total
b4c01a8 C23 a record without an amount was read as an observed amount of zero
e1a2dca C23 totri computed triind and clvi before the missing first periods of later origins were filled, so the remembered tables did not describe the finished triangle
d67e591 C21 the medial average of no link ratios raised IndexError (leaving out the only link ratio of a period made every estimate fail)
a4a2a02 C21 averages stopped at the first missing link ratio or after as many rows as there are values, and failed on columns without missing values
0758171 C22 link ratios within 1e-5 of their median were counted as equal to it (tail factors near 1 were all classed as neither small nor large)"""
K = """C16 incremental-amounts [data autoliab] load("autoliab") returns cumulative amounts (every origin grows towards its ultimate), documented as incremental; the tests fix its total
C16 incremental-amounts [data glre] load("glre") returns cumulative amounts, documented as incremental; the tests fix its total"""
import subprocess
out = ["# Findings of the checks on trikit/trikit.",
       "# known: property=<id> rule=<rule> construct=[<construct>] <what fails>     (recorded, not repaired; reported as KNOWN-FINDING)",
       "# fixed: property=<id> <commit> <what failed>                               (repaired; suppresses nothing)"]
for l in F.splitlines():
    h, p, t = l.split(" ", 2)
    full = subprocess.check_output(["git", "-C", "/repo", "rev-parse", h], text=True).strip()
    out.append("fixed: property=%s %s %s" % (p, full[:12], t))
for l in K.splitlines():
    p, r, t = l.split(" ", 2)
    c, t = t[1:].split("] ", 1)
    out.append("known: property=%s rule=%s construct=[%s] %s" % (p, r, c, t))
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
