"""A second look, path by path, at what joining the two sides of a condition left undecided.

A condition the analysis cannot decide is normally followed on both sides and the results are joined; where the sides disagree the joined
value is no longer one formula and the rules about formulas stay undecided.  The property must hold on each side, so the rules are applied
again with one such condition assumed true, and assumed false, everywhere.  Left alone are conditions inside loops (they do not have one
outcome), checks that only raise, and guards for missing or absent values (there the side without the treatment is correct because
there is nothing to treat).  An outcome which states an equality or the sign of everything is left alone too: under it formulas which
differ in general may agree."""
import ast
import multiprocessing
import os
import time
from .interp import Interp
from .report import Report
from .world import World
from . import rules

ALWAYS = ("C23",)
PIDS = ALWAYS + ("C04", "C06", "C10", "C12", "C13", "C14", "C15", "C18", "C19", "C22", "C24", "C25", "C26")
LOOPS = (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)
GUARDS = {"isnull", "isna", "notnull", "notna", "isnan", "hasnans", "empty", "isfinite", "isinf", "isinstance", "hasattr", "callable", "nan", "NaN", "duplicated", "is_unique", "is_monotonic",
          "is_monotonic_increasing", "is_monotonic_decreasing", "isscalar", "is_list_like", "issubclass", "ndim", "dtype", "dtypes"}
BUDGET = 420


def names(t):
    return {getattr(x, "attr", getattr(x, "id", None)) for x in ast.walk(t)}


def absent(t):
    """does the condition ask whether a value is there at all?"""
    if names(t) & GUARDS:
        return True
    for x in ast.walk(t):
        if isinstance(x, ast.Constant) and x.value is None:
            return True
        if isinstance(x, ast.Compare):
            sides = [x.left] + x.comparators
            small = [y for y in sides if isinstance(y, ast.Constant) and isinstance(y.value, (int, float)) and 0 <= y.value <= 4]
            size = [y for y in sides if names(y) & {"len", "size", "shape", "count"}]
            if small and size:
                return True
    return isinstance(t, (ast.Name, ast.Attribute))


def zero(x):
    return isinstance(x, ast.Constant) and not isinstance(x.value, (str, bool)) and x.value == 0


def informative(t):
    """the outcomes of a condition which say that things are equal, or of one sign: there formulas which differ in general may well agree,
    so nothing can be concluded from a different formula"""
    if isinstance(t, ast.Compare):
        if len(t.ops) != 1:
            return (True, False)
        op, a, b = t.ops[0], t.left, t.comparators[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            return (True, False)
        if isinstance(op, (ast.Eq, ast.Is)):
            return (True,)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return (False,)
        if zero(a) or zero(b) or not any(isinstance(x, ast.Constant) for y in (a, b) for x in ast.walk(y)):
            return (True, False)        # a sign; or the choice a minimum or maximum makes
        return ()
    if isinstance(t, ast.Call):
        f = getattr(t.func, "attr", getattr(t.func, "id", ""))
        if f in ("allclose", "isclose", "array_equal", "equals"):
            return (True,)
        if f in ("any", "all"):
            # "is there anything to treat?": where there is not, the treatment is rightly left out
            inner = [x for x in ast.walk(t) if isinstance(x, ast.Compare)]
            if any(len(x.ops) != 1 for x in inner):
                return (True, False)
            return (f == "all",)
    if isinstance(t, ast.BoolOp):
        a = set()
        for x in t.values:
            a |= set(informative(x))
        return tuple(a)
    return ()


def outcomes(t):
    """the outcomes worth assuming: of `x.isnull().any()` only the one in which there is something to treat"""
    pos = True
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, pos = t.operand, not pos
    if not absent(t):
        skip = informative(t)
        return tuple(o if pos else not o for o in (True, False) if o not in skip)
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ("any", "all") and names(t) & {"isnull", "isna", "notnull", "notna"}:
        null = bool(names(t) & {"isnull", "isna"})
        if null == (t.func.attr == "any"):
            return (pos if null else not pos,)
    return ()


def raises(b):
    return bool(b) and isinstance(b[-1], ast.Raise)


def sites(I):
    """[(site, outcome, text)] to look at one at a time"""
    up = {}
    for tree in I.prog.trees.values():
        for x in ast.walk(tree):
            for c in ast.iter_child_nodes(x):
                up[c] = x
    out = []
    for site, (n, q) in sorted(I.forks.items(), key=lambda kv: kv[0]):
        if site[0].startswith("<"):
            continue
        if isinstance(n, ast.If) and (raises(n.body) or raises(n.orelse)):
            continue
        p, loop = up.get(n), False
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.ClassDef)):
            loop |= isinstance(p, LOOPS)
            p = up.get(p)
        if loop:
            continue
        for o in outcomes(n.test):
            out.append((site, o, "%s:%d %s: `%s` is %s" % (site[0], site[1], q, ast.unparse(n.test)[:60], "true" if o else "false")))
    return out


def one(job):
    pid, root, site, outcome, text = job
    Interp.FORCE = {site: outcome}
    rep = Report(pid)
    try:
        W = World(root)
        rep.worlds = [W]
        rules.RULES[pid](rep, W)
    except Exception as e:
        return text, None, "%s: %s" % (type(e).__name__, e)
    return text, rep.viol, len(rep.open)


def second_look(rep, W, root):
    force = rep.pid in ALWAYS or os.environ.get("TKSTATIC_FORCE")
    if not force and (rep.pid not in PIDS or not rep.open or rep.viol):
        return
    jobs = [(rep.pid, root) + s for s in sites(W.I)]
    if not jobs:
        return
    weak = {r for r, _ in rep.open}
    end = time.time() + BUDGET
    looked = []
    with multiprocessing.get_context("fork").Pool(min(7, len(jobs))) as pool:
        it = pool.imap(one, jobs, 1)
        for j in jobs:
            try:
                text, viol, n = it.next(timeout=max(1, end - time.time()))
            except multiprocessing.TimeoutError:
                looked.append("not looked at any more: " + j[4])
                break
            looked.append(text)
            for key, v in (viol or {}).items():
                if (force or key[0] in weak) and key not in rep.viol:
                    v = dict(v, message=v["message"] + " (on the path where %s)" % text)
                    rep.viol[key] = v
        pool.terminate()
    rep.extra["paths_taken_apart"] = looked
