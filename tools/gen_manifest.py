"""MANIFEST.json from the rules that exist (claimed) and the reasons for the rest"""
import json, os, sys
sys.path.insert(0, "/verif")
from tkstatic import rules_all
from tkstatic.rules import RULES

TECH = {
    "C01": "abstract interpretation of the source: ownership/alias and effect analysis of caller objects",
    "C02": "abstract interpretation of the source: ownership and effect analysis of published objects",
    "C03": "abstract interpretation: points-to (sharing) analysis and history non-interference by tag flow",
    "C04": "abstract interpretation: taint flow from the selection table to every later factor",
    "C05": "abstract interpretation: provenance of every random draw, effect analysis of entropy sources",
    "C06": "abstract interpretation: row-order and duplicate taint from the input table to the triangle's cells",
    "C07": "abstract interpretation: label kinds of axes and columns, misuse of labels as numbers or positions",
    "C08": "abstract interpretation with renamed inputs: column resolution and equality of abstract results",
    "C09": "abstract interpretation: definite assignment, column, attribute and signature resolution",
    "C10": "abstract interpretation: path feasibility of acceptance for option values outside the documented set",
    "C11": "abstract interpretation: option-to-result taint flow and constant propagation of recorded options",
    "C12": "abstract interpretation: dimension (degree of homogeneity) analysis, symbolic alpha",
    "C13": "abstract interpretation: symbolic value numbering of published columns, polynomial identity",
    "C14": "abstract interpretation: cross-simulation and cross-origin taint through row-wise operations",
    "C15": "abstract interpretation: symbolic value numbering of quantile columns against their labels",
    "C16": "abstract interpretation of the loader plus static inspection of the shipped tables",
    "C17": "abstract interpretation: effect analysis of process-wide settings, imports and files",
    "C18": "abstract interpretation: symbolic value numbering of errors and fitted distributions",
    "C19": "abstract interpretation: typestate (incremental/cumulative form) of every amount",
    "C21": "abstract interpretation with value numbering of branches, row selections and averages: each stored average matched against its row label's kind, window and mask, case by case on the number of link ratios",
    "C22": "abstract interpretation with value numbering: the derived closed forms of the reported interval and statistic are compared with the published ones by identity testing at points; a case table decides the classes of a link ratio",
    "C24": "abstract interpretation with value numbering of table cells (positions as polynomials in loop variables): each assignment matched against the recursion; loop domains",
    "C26": "abstract interpretation with value numbering of table cells, sums and columns; residuals, scale, resampled amounts and the moments of every draw compared with the published formulas at signed assignments; selection condition of the resampled residuals tabulated",
    "C25": "abstract interpretation with value numbering of table cells and sums, alpha symbolic: each formula brought to normal form and compared with Mack's",
    "C23": "abstract interpretation: missing-amount dataflow; guard, neighbour and typestate analysis of every cell assignment",
}
NOTE = ("Decided from /repo's current syntax trees on every run; nothing of the package is executed. Sound up to the library models "
        "(pandas, numpy, scipy, seaborn as installed) and the enumerated option values; parts the analysis cannot follow are counted as undecided "
        "in the evidence and never reported as violations.")
NA = {
    "C20": "quantifies over the sampling distribution of repeated experience (coverage of the predictive distribution, degrees of freedom against an "
           "external statistical model); no static argument over the source settles it, and the sign of the parameter count in dof is fixed by an existing test",
}
checks, na = [], []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in RULES:
        cmd = "python3 -m tkstatic %s" % p
        checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, evidence_file="evidence/%s.json" % p,
                           technique=TECH[p], level="other", level_note=NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check under construction")))
m = dict(version=1, setup_cmd="python3 -m compileall -q tkstatic", checks=checks, not_applicable=na,
         notes="Static analyser in /verif/tkstatic (standard library only). See DESIGN.md.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
