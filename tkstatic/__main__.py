import argparse
import os
import sys
from .report import Report, finish
from .world import World, AnalysisError
from . import rules, rules_all, split


def run(pid, root, tier, seed):
    rep = Report(pid, tier, seed)
    W = World(root)
    rep.worlds = [W]
    try:
        rules.RULES[pid](rep, W)
    except AnalysisError:
        raise
    except Exception as e:              # what was decided before stands; the rest is undecided
        if os.environ.get("TKSTATIC_DEBUG"):
            raise
        rep.unk("analysis", "the rest of the rules", "the analyser failed: %s: %s" % (type(e).__name__, e))
        print("property=%s analysis incomplete: %s: %s" % (pid, type(e).__name__, e))
    split.second_look(rep, W, root)
    return finish(rep, rep.worlds)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        if a.property == "all":
            rc = 0
            for p in sorted(rules.RULES):
                rc |= run(p, a.root, tier, seed)
            return rc
        return run(a.property, a.root, tier, seed)
    except AnalysisError as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
