"""Obligations, violations, known findings and evidence of one check."""
import json
import os
import re
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(HERE, "known-findings.txt")


class Report:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.done = {}              # (rule, instance) -> note
        self.open = {}              # (rule, instance) -> why undecided
        self.viol = {}              # (rule, construct) -> record
        self.rules = {}             # rule -> text
        self.assume = []
        self.worlds = []
        self.extra = {}

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, inst, note=""):
        if (rule, inst) not in self.open:
            self.done.setdefault((rule, inst), note)

    def unk(self, rule, inst, why):
        self.done.pop((rule, inst), None)
        self.open.setdefault((rule, inst), why)

    def bad(self, rule, construct, msg, at=None, scen="", chain=(), inst=None):
        """construct: stable name of what is wrong (function, field, call site), never a line number"""
        key = (rule, construct)
        f, q, line = at or self.locate(msg)
        if q and not f:
            f = self.file_of(q)
        self.done.pop((rule, inst), None)
        if key not in self.viol:
            self.viol[key] = dict(property=self.pid, rule=rule, construct=construct, message=msg, file=f, function=q,
                                  line=line, scenario=scen, call_chain=list(chain))

    def file_of(self, qual):
        """source file of a function given by its dotted name"""
        prog = self.worlds[0].I.prog if self.worlds else None
        m = qual
        while prog is not None and m:
            if m in prog.files:
                return prog.files[m]
            m = m.rpartition(".")[0]
        return ""

    def locate(self, msg):
        """definition of the operation a message is about"""
        if not self.worlds:
            return "", "", 0
        I = self.worlds[0].I
        alias = {"base_cl": "BaseChainLadder", "mack_cl": "MackChainLadder", "boot_cl": "BootstrapChainLadder", "base": "BaseChainLadder",
                 "mack": "MackChainLadder", "boot": "BootstrapChainLadder"}
        table = {}
        for q, ci in I.classes.items():
            name = q.split(".")[-1]
            for m, fi in ci.members.items():
                table.setdefault(m, (fi.module, fi.qual, fi.node.lineno))
                table.setdefault(name + "." + m, (fi.module, fi.qual, fi.node.lineno))
        ids = re.findall(r"[A-Za-z_][A-Za-z_0-9]*", msg)
        for x, y in re.findall(r"([A-Za-z_][A-Za-z_0-9]*)\.([A-Za-z_][A-Za-z_0-9]*)", msg):
            if x + "." + y in table:
                m, q, line = table[x + "." + y]
                return I.prog.files.get(m, m), q, line
        for x in ids:
            for c in (alias.get(x, x) + ".__call__", alias.get(x, x) + ".__init__"):
                if c in table:
                    m, q, line = table[c]
                    return I.prog.files.get(m, m), q, line
        for x in ids:
            if x in table and x not in ("sel", "index", "values"):
                m, q, line = table[x]
                return I.prog.files.get(m, m), q, line
        for m, tree in I.prog.trees.items():
            for st in tree.body:
                if getattr(st, "name", None) in ids or getattr(st, "name", "").lstrip("_") in ids:
                    return I.prog.files.get(m, m), m + "." + st.name, st.lineno
        return "", "", 0

    def event(self, rule, e, msg=None, construct=None):
        c = construct or "%s: %s" % (e.func.replace(".<lambda>", ""), e.kind)
        self.bad(rule, c, msg or e.msg, (e.file, e.func, e.line), e.scen, e.chain)


def load_findings():
    """[(property, rule, construct, text)] recorded, unrepaired defects"""
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as fh:
            for line in fh:
                m = re.match(r"known: property=(\S+) rule=(\S+) construct=\[(.*?)\] (.*)", line.strip())
                if m:
                    out.append(m.groups())
    return out


def finish(rep, worlds):
    """print the outcome, write evidence, return the exit code"""
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    known = {(p, r, c): t for p, r, c, t in load_findings()}
    new = []
    for key, v in rep.viol.items():
        t = known.get((rep.pid, v["rule"], v["construct"]))
        if t is not None:
            print("KNOWN-FINDING: property=%s %s" % (rep.pid, t))
        else:
            new.append(v)
    fns, stm, calls, scen, intern, unmod = set(), 0, 0, [], [], {}
    for w in worlds:
        fns |= w.I.visited
        stm += w.I.nstmt
        calls += w.I.calls
        scen += w.labels
        intern += w.I.internal
        for a, b in w.I.unmodelled.items():
            unmod[a] = unmod.get(a, 0) + b
    npos = len(rep.done) + len(rep.open) + len(rep.viol)
    cov = dict(
        explanation="Static analysis (abstract interpretation of /repo's current syntax trees; nothing of the package is executed). "
                    "Rules: " + "; ".join("%s: %s" % kv for kv in sorted(rep.rules.items())),
        obligations=npos, discharged=len(rep.done), undecided=len(rep.open), violated=len(rep.viol),
        scenarios=len(scen), functions_analysed=len(fns), statements_interpreted=stm, calls_resolved=calls,
        functions=sorted(fns), scenario_labels=sorted(set(scen))[:200],
        samples=["%s | %s%s" % (a, b, " | " + n if n else "") for (a, b), n in sorted(rep.done.items())[:60]],
        undecided_samples=["%s | %s | %s" % (a, b, n) for (a, b), n in sorted(rep.open.items())[:60]],
        analyser_gaps=sorted(set(intern))[:40], unmodelled_library_calls=unmod)
    cov.update(rep.extra)
    ev = dict(property=rep.pid, tier=rep.tier, seed=rep.seed, level="other", coverage=cov,
              assumptions=rep.assume, wall_s=round(time.time() - rep.t0, 3), violations=len(new))
    with open(os.path.join(evdir, rep.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    if new:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new):
            path = os.path.join(rdir, "%s-%d.json" % (rep.pid, i))
            with open(path, "w") as fh:
                json.dump(v, fh, indent=1, default=str)
            print("%s:%s %s: [%s] %s (history: %s)" % (v["file"], v["line"], v["function"], v["rule"], v["message"], v["scenario"]))
            if v["call_chain"]:
                print("    via " + " > ".join(v["call_chain"]))
            print("VIOLATION property=%s replay=%s" % (rep.pid, path))
        return 1
    print("property=%s held: %d obligations, %d discharged, %d undecided; %d scenarios, %d functions, %d statements (%.1f s)"
          % (rep.pid, npos, len(rep.done), len(rep.open), len(scen), len(fns), stm, time.time() - rep.t0))
    return 0
