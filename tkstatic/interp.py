"""Abstract interpreter for the analysed package (syntax tree -> abstract states)."""
import ast
import os
from .dom import *
from . import dom
from . import terms as T
from . import miss

MAXDEPTH = 40


DEBUG = bool(os.environ.get("TKSTATIC_DEBUG"))


class Dead(Exception):
    """the current abstract path ends (every concrete path raises)"""


class AnalysisError(Exception):
    """the analysis itself cannot proceed (vanished anchor, unparsable source)"""


class FuncInfo:
    def __init__(self, node, module, qual, cls=None):
        self.node, self.module, self.qual, self.cls = node, module, qual, cls
        self.name = getattr(node, "name", "<lambda>")
        self.kind = "func"          # func/static/classm/prop/cachedprop
        self.cache = False          # lru_cache
        self.setter = None
        self.defaults = []
        self.kwdefaults = {}
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None

    def __repr__(self):
        return self.qual


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.qual = module + "." + name
        self.bases = []             # ClsV / LibV
        self.members = {}           # FuncInfo
        self.oid = None             # heap object for class attributes


@dataclass
class Exc:
    typ: str
    func: str
    line: int
    state: object
    msg: object = None
    explicit: bool = True
    conds: frozenset = EMPTY


class Out:
    def __init__(self):
        self.brk, self.cont, self.rets = None, None, []


class Program:
    """parsed sources of one package"""

    def __init__(self, root, package="trikit"):
        self.root, self.package = root, package
        self.trees, self.files, self.src = {}, {}, {}
        pk = os.path.join(root, package)
        if not os.path.isdir(pk):
            raise AnalysisError("package directory %s not found" % pk)
        for d, dirs, fs in os.walk(pk):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    m = rel[:-3].replace(os.sep, ".")
                    if m.endswith(".__init__"):
                        m = m[:-9]
                    with open(p, encoding="utf-8") as fh:
                        s = fh.read()
                    try:
                        import warnings
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            t = ast.parse(s, p)
                    except SyntaxError as e:
                        raise AnalysisError("%s does not parse: %s" % (rel, e))
                    self.trees[m], self.files[m], self.src[m] = t, rel, s

    def is_pkg(self, m):
        return self.files.get(m, "").endswith("__init__.py")


class Event:
    __slots__ = ("kind", "func", "file", "line", "msg", "data", "scen", "chain")

    def __init__(self, kind, func, file, line, msg, data, scen, chain=()):
        self.kind, self.func, self.file, self.line, self.msg, self.data, self.scen, self.chain = \
            kind, func, file, line, msg, data, scen, chain

    def __repr__(self):
        return "%s %s:%s %s: %s" % (self.kind, self.file, self.line, self.func, self.msg)


class Interp:
    def __init__(self, prog):
        self.prog = prog
        T.reset()
        self.events = []
        self._seen = {}         # scenario label -> events reported since the scenario of that name began
        self.forks = {}         # conditions of unknown outcome met: (file, line, column) -> (statement or expression, function)
        self.stack = []
        self.atd = {}               # call depth -> statement being analysed
        self.excs = [[]]
        self.scen = ""
        self.next_oid = [1]
        self.classes = {}
        self.funcs = {}
        self.modobj = {}
        self.loading = []
        self.visited = set()        # functions analysed
        self.nstmt = 0
        self.calls = 0
        self.unmodelled = {}
        self.opcount = {}
        self.quiet = 0
        self.orders = {}
        self.tries = []
        self.internal = []
        self.nodebudget = None
        import json
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.json")) as fh:
            self.api = json.load(fh)
        self.sorted_orders = {}
        from . import lib_py, lib_np, lib_pd
        self.py, self.np, self.pd = lib_py, lib_np, lib_pd
        self.st0 = State()
        for m in sorted(prog.trees, key=lambda x: (x.count("."), x)):
            self.load_module(m, self.st0)
        self.mark_module_objects()

    def mark_module_objects(self):
        """everything alive after import (globals, class attributes, default arguments) is shared state"""
        for o in self.st0.heap.values():
            if not (isinstance(o, Inst) and isinstance(o.cls, str) and o.cls.startswith(("module:", "class:"))):
                o.owner = o.owner | {"shared"}

    # ---- bookkeeping ----------------------------------------------------
    def new(self, st, obj, node=None):
        oid = self.next_oid[0]
        self.next_oid[0] += 1
        obj.st = st.sid
        if obj.site is None:
            obj.site = self.where(node)
        st.heap[oid] = obj
        return Ref(oid)

    def where(self, node=None):
        if self.stack:
            fi, callnode = self.stack[-1]
            f = self.prog.files.get(fi.module, fi.module)
            q = fi.qual
        else:
            f, q = "<scenario>", "<scenario>"
        return (f, q, getattr(node, "lineno", 0) or 0)

    def opt_stored(self, v, node):
        """a single value derived from an option alone is written into a series or array"""
        c = v.cell if isinstance(v, Sc) else None
        opts = [t for t in c.tags if t.startswith("opt:")] if c is not None else ()
        if len(opts) == 1 and len(c.tags) == 1:
            self.event("opt-stored", node, "%s stored as %s" % (opts[0], "an expression" if c.const is NOC else repr(c.const)), opt=opts[0][4:], const=c.const, term=c.term)

    def event(self, kind, node, msg, **data):
        if self.quiet:
            return
        f, q, line = self.where(node)
        if f == "<scenario>":
            data["scenario_site"] = True
        key = (kind, f, q, line, msg)
        seen = self._seen.setdefault(self.scen, set())
        if key in seen:
            return
        seen.add(key)
        chain = tuple(fi.qual for fi, _ in self.stack)
        self.events.append(Event(kind, q, f, line, msg, data, self.scen, chain))

    EXC = {"missing-attr": "AttributeError", "bad-call": "TypeError", "unbound": "UnboundLocalError",
           "undefined": "NameError", "missing-col": "KeyError", "missing-key": "KeyError",
           "bad-unpack": "ValueError", "bad-index": "IndexError", "type-error": "TypeError"}

    def fail(self, kind, node, msg, st=None, **data):
        """a definite run-time failure at this point: caught by a handler, or reported"""
        et = self.EXC.get(kind, "Exception")
        for names in reversed(self.tries):
            if names is None or et in names or "Exception" in names or "BaseException" in names or \
                    any(exc_sub(et, x) for x in names) or (et == "UnboundLocalError" and "NameError" in names):
                self.excs[-1].append(Exc(et, self.where(node)[1], self.where(node)[2], st, None, False))
                raise Dead()
        self.event(kind, node, msg, **data)
        raise Dead()

    def order_tok(self, *key):
        """stable identity for an element order"""
        if key not in self.orders:
            self.orders[key] = len(self.orders) + 1
        return self.orders[key]

    # ---- modules --------------------------------------------------------
    def load_module(self, m, st):
        if m in self.modobj:
            return
        obj = Inst(cls="module:" + m, attrs={})
        self.modobj[m] = self.new(st, obj).oid
        fi = FuncInfo(ast.parse("def _m(): pass").body[0], m, m + ".<module>")
        self.loading.append(m)
        self.stack.append((fi, None))
        saved = st.env
        st.env = {}
        try:
            out = Out()
            r = self.exec_block(self.prog.trees[m].body, st, out)
            if r is None:
                raise AnalysisError("module %s cannot be initialised" % m)
            if r is not st:
                st.become(r)
            mo = st.mut(self.modobj[m])
            mo.attrs.update(st.env)
        finally:
            self.stack.pop()
            self.loading.pop()
            st.env = saved

    def module_level(self):
        return bool(self.stack) and self.stack[-1][0].qual.endswith(".<module>")

    def global_get(self, module, name, st):
        oid = self.modobj.get(module)
        if oid is not None:
            v = st.heap[oid].attrs.get(name)
            if v is not None:
                return v
        return None

    # ---- analyser robustness ----------------------------------------------
    def marks(self):
        return len(self.stack), len(self.excs), len(self.tries), self.quiet, len(getattr(self, "yields", ()))

    def crashed(self, e, node, mark):
        """the analyser itself failed on a construct: the result is unknown"""
        if DEBUG:
            raise e
        a, b, c, q, y = mark
        del self.stack[a:]
        del self.excs[b:]
        del self.tries[c:]
        self.quiet = q
        if y < len(getattr(self, "yields", ())):
            del self.yields[y:]
        self.internal.append("%s:%d %s" % (self.where(node)[0], self.where(node)[2], "%s: %s" % (type(e).__name__, str(e)[:80])))

    def guard(self, fn, args, recv, node, st):
        mark = self.marks()
        try:
            return fn(*args)
        except (Dead, AnalysisError):
            raise
        except Exception as e:
            self.crashed(e, node, mark)
            r = recv.obj if isinstance(recv, MethV) else recv
            if isinstance(r, Ref) and r.oid in st.heap and isinstance(st.heap[r.oid], Frame):
                st.mut(r.oid).open = True
            return Top(frozenset(["?"]))

    # ---- statements -----------------------------------------------------
    def exec_block(self, stmts, st, out):
        for s in stmts:
            self.nstmt += 1
            self.atd[len(self.stack)] = s
            mark = self.marks()
            try:
                st = getattr(self, "s_" + type(s).__name__, self.s_other)(s, st, out)
            except Dead:
                return None
            except AnalysisError:
                raise
            except Exception as e:
                self.crashed(e, s, mark)
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        st.env[x.id] = Top(frozenset(["?"]))
            if st is None:
                return None
        return st

    def s_other(self, n, st, out):
        return st

    def s_Pass(self, n, st, out):
        return st

    def s_Expr(self, n, st, out):
        if isinstance(n.value, ast.Constant):
            return st
        self.ev(n.value, st)
        return st

    def s_Global(self, n, st, out):
        g = st.env.get("%global")
        st.env["%global"] = (g or frozenset()) | frozenset(n.names)
        return st

    def s_Import(self, n, st, out):
        for a in n.names:
            nm = a.name
            self.import_event(nm, n)
            if nm.split(".")[0] == self.prog.package:
                self.load_if(nm, st)
                v = ModV(nm if a.asname else nm.split(".")[0])
            else:
                v = LibV(nm if a.asname else nm.split(".")[0])
            self.bind(a.asname or nm.split(".")[0], v, st)
        return st

    def load_if(self, m, st):
        if m in self.prog.trees and m not in self.modobj:
            self.load_module(m, st)

    def import_event(self, nm, n):
        self.event("import", n, nm, name=nm, toplevel=self.module_level())

    def s_ImportFrom(self, n, st, out):
        mod = n.module or ""
        if n.level:
            cur = self.stack[-1][0].module
            parts = cur.split(".")
            drop = n.level - (1 if self.prog.is_pkg(cur) else 0)
            base = parts[:len(parts) - drop] if drop else parts
            mod = ".".join(base + ([mod] if mod else []))
        if mod.split(".")[0] == self.prog.package:
            self.load_if(mod, st)
            for a in n.names:
                sub = mod + "." + a.name
                if sub in self.prog.trees:
                    self.load_if(sub, st)
                    v = ModV(sub)
                else:
                    v = self.global_get(mod, a.name, st)
                    if v is None and mod in self.loading:
                        v = st.env.get(a.name) if self.stack[-1][0].module == mod else None
                    if v is None:
                        if mod not in self.loading:
                            self.event("missing-name", n, "%s has no name %s" % (mod, a.name))
                        v = TOP
                self.bind(a.asname or a.name, v, st)
        else:
            self.import_event(mod, n)
            for a in n.names:
                self.bind(a.asname or a.name, LibV(mod + "." + a.name), st)
        return st

    def bind(self, name, v, st):
        g = st.env.get("%global")
        if g and name in g:
            oid = self.modobj[self.stack[-1][0].module]
            old = st.heap[oid].attrs.get(name)
            st.mut(oid).attrs[name] = v
            self.event("global-store", None, "assigns module global %s" % name, name=name)
            return
        st.env[name] = v

    def s_FunctionDef(self, n, st, out):
        fi = self.make_func(n, st)
        v = FnV(fi, cells=None if self.module_level() else dict(st.env))
        for d in reversed(n.decorator_list):
            v = self.decorate(d, v, fi, st)
        self.bind(n.name, v, st)
        return st

    def make_func(self, n, st, cls=None):
        cur = self.stack[-1][0]
        if cls:
            qual = cls.qual + "." + n.name
        elif self.module_level():
            qual = cur.module + "." + getattr(n, "name", "<lambda>")
        else:
            qual = cur.qual + "." + getattr(n, "name", "<lambda>")
        fi = self.funcs.get(id(n))
        if fi is None:
            fi = FuncInfo(n, cur.module, qual, cls)
            self.funcs[id(n)] = fi
            fi._keep = n
        fi.defaults = [self.ev(d, st) for d in n.args.defaults]
        fi.kwdefaults = {a.arg: self.ev(d, st) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        return fi

    def decorate(self, d, v, fi, st):
        name = dotted(d.func) if isinstance(d, ast.Call) else dotted(d)
        base = (name or "").split(".")[-1]
        if base in ("lru_cache", "cache"):
            fi.cache = True
            return v
        if base in ("wraps", "contextmanager", "njit", "jit", "abstractmethod", "overload", "no_type_check"):
            return v
        if isinstance(d, ast.Call) and name and name.startswith("functools"):
            return v
        try:
            f = self.ev(d, st)
            return self.call(f, [v], {}, d, st)
        except Dead:
            return TOP

    def s_ClassDef(self, n, st, out):
        mod = self.stack[-1][0].module
        ci = ClassInfo(n.name, mod, n)
        for b in n.bases:
            v = self.ev(b, st)
            ci.bases.append(v)
        self.classes[ci.qual] = ci
        co = Inst(cls="class:" + ci.qual, attrs={})
        ci.oid = self.new(st, co, n).oid
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self.make_func(s, st, ci)
                fi.kind = "func"
                setter = False
                fi.wrap = []
                for d in s.decorator_list:
                    nm = dotted(d.func if isinstance(d, ast.Call) else d) or ""
                    b = nm.split(".")[-1]
                    if b == "property":
                        fi.kind = "prop"
                    elif b == "cached_property":
                        fi.kind = "cachedprop"
                    elif b == "staticmethod":
                        fi.kind = "static"
                    elif b == "classmethod":
                        fi.kind = "classm"
                    elif b == "setter":
                        setter = True
                    elif b == "getter":
                        fi.kind = "prop"
                    elif b == "deleter":
                        setter = None
                    elif b in ("lru_cache", "cache"):
                        fi.cache = True
                    elif b in ("abstractmethod", "wraps"):
                        pass
                    else:
                        fi.wrap.append(d)
                if setter:
                    if s.name in ci.members:
                        ci.members[s.name].setter = fi
                elif setter is False:
                    ci.members[s.name] = fi
            elif isinstance(s, ast.Assign):
                v = self.ev(s.value, st)
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        st.heap[ci.oid].attrs[t.id] = v
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                st.heap[ci.oid].attrs[s.target.id] = self.ev(s.value, st)
        # `name = property(getter)` style members
        for kname, v in list(st.heap[ci.oid].attrs.items()):
            if isinstance(v, Ref) and isinstance(st.heap[v.oid], Opq) and st.heap[v.oid].typ == "property":
                g = st.heap[v.oid].data.get("fget")
                if isinstance(g, FnV):
                    fi = g.info
                    fi.kind = "prop"
                    ci.members[kname] = fi
                    del st.heap[ci.oid].attrs[kname]
        self.bind(n.name, ClsV(ci.qual), st)
        return st

    def s_Return(self, n, st, out):
        v = self.ev(n.value, st) if n.value is not None else NONE
        out.rets.append((st, v))
        return None

    def s_Break(self, n, st, out):
        out.brk = state_join(out.brk, st)
        return None

    def s_Continue(self, n, st, out):
        out.cont = state_join(out.cont, st)
        return None

    def s_Raise(self, n, st, out):
        typ, msg = "Exception", None
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                typ = dotted(e.func) or "Exception"
                args = [self.ev(a, st) for a in e.args]
                msg = args[0] if args else None
            else:
                typ = dotted(e) or "Exception"
        self.raise_(typ, n, st, msg)
        return None

    def raise_(self, typ, n, st, msg=None, explicit=True):
        f, q, line = self.where(n)
        self.excs[-1].append(Exc(typ.split(".")[-1], q, line, st, msg, explicit, st.pc))

    def s_Assert(self, n, st, out):
        t, tags = self.cond(n.test, st)
        if t is False:
            self.raise_("AssertionError", n, st)
            return None
        self.refine(n.test, st, True)
        return st

    def s_Delete(self, n, st, out):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNB
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                key = self.ev(t.slice, st)
                for a in atoms_of(o):
                    if isinstance(a, Ref):
                        self.mutate(a, n, st, "del item")
                        ob = st.mut(a.oid)
                        c = constof(key)
                        if isinstance(ob, Frame) and c is not NOC:
                            ob.cols.pop(c, None)
                        elif isinstance(ob, Dct) and c is not NOC:
                            ob.items.pop(c, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                if isinstance(o, Ref):
                    self.mutate(o, n, st, "del attribute " + t.attr)
        return st

    def s_Assign(self, n, st, out):
        v = self.ev(n.value, st)
        v = self.name_value(v, lambda: ast.unparse(n.targets[0]), st)
        for t in n.targets:
            self.assign(t, v, st)
        return st

    def name_value(self, v, what, st):
        """value numbering: a computed amount whose term is unknown gets an
        opaque name keyed by the program point that stores it"""
        def need(c, ixc=None):
            if c is None or c.term is not None or c.const is not NOC:
                return False
            if c.lab is not None:
                return c.lab == "D" and ixc is not None and ixc.lab == "O" and c.rep is None
            if miss.TST[0] and c.dt in ("num", "pyint", None):
                return True
            return c.dt == "num" and c.dim is not None and c.dim not in (dom.Z, dom.LIT)
        if isinstance(v, Sc):
            if need(v.cell):
                return Sc(v.cell.w(term=T.atom("val", self.stack[-1][0].qual if self.stack else "", what())))
            return v
        if not isinstance(v, Ref):
            return v
        o = st.heap[v.oid]
        if isinstance(o, Ser):
            cs = [(None, o.cell)] + list(o.special.items())
            ixc = o.ix.cells[0] if len(o.ix.cells) == 1 else None
            if any(need(c, ixc) for _, c in cs):
                m = st.mut(v.oid)
                nm = lambda c, s: c.w(term=T.atom("val", self.stack[-1][0].qual if self.stack else "", what(), *((s,) if s is not None else ()))) if need(c, ixc) else c
                m.cell = nm(m.cell, None) if m.cell is not None else None
                m.special = {s: nm(c, s) for s, c in m.special.items()}
                if miss.FORM[0]:
                    miss.named(m)
        elif isinstance(o, Arr):
            if need(o.cell) and not o.exact:
                st.mut(v.oid).cell = o.cell.w(term=T.atom("val", self.stack[-1][0].qual if self.stack else "", what()))
        elif isinstance(o, Frame):
            if o.rest is not None and o.rest.cell is not None and need(o.rest.cell):
                m = st.mut(v.oid)
                m.rest = Col(m.rest.cell.w(term=T.atom("val", self.stack[-1][0].qual if self.stack else "", what(), "*")), m.rest.special, m.rest.maybe)
            for a, c in list(o.cols.items()):
                if c.cell is not None and need(c.cell) and isinstance(a, (str, int)):
                    m = st.mut(v.oid)
                    m.cols[a] = Col(c.cell.w(term=T.atom("val", self.stack[-1][0].qual if self.stack else "", what(), a)), c.special, c.maybe)
        return v

    def s_AnnAssign(self, n, st, out):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st)
        return st

    def s_AugAssign(self, n, st, out):
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, n)
            rhs = self.ev(n.value, st)
            r = self.augop(cur, op, rhs, n, st)
            self.bind(t.id, r, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, t, st)
            rhs = self.ev(n.value, st)
            r = self.augop(cur, op, rhs, n, st)
            self.setattr(o, t.attr, r, t, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            key = self.ev_slice(t.slice, st)
            cur = self.getitem(o, key, t, st)
            rhs = self.ev(n.value, st)
            r = self.augop(cur, op, rhs, n, st, sub=True)
            self.setitem(o, key, r, t, st)
        return st

    def augop(self, cur, op, rhs, n, st, sub=False):
        """x op= y: in place for arrays, series, frames, lists"""
        if isinstance(cur, Ref):
            ob = st.heap[cur.oid]
            if isinstance(ob, Seq) and ob.kind == "list" and op == "Add":
                self.py.list_extend(self, cur, rhs, n, st)
                return cur
            if isinstance(ob, (Arr, Ser, Frame)) and not sub:
                res = self.binop(op, cur, rhs, n, st)
                self.mutate(cur, n, st, "in-place " + op)
                if isinstance(res, Ref):
                    r = st.heap[res.oid]
                    if type(r) is type(ob):
                        new = r.clone()
                        new.owner, new.base, new.st = ob.owner, ob.base, None
                        if isinstance(ob, Frame):
                            new.cls, new.attrs = ob.cls, ob.attrs
                        if isinstance(ob, Ser):
                            new.name = ob.name
                        st.heap[cur.oid] = new
                        return cur
                return cur if not isinstance(res, Ref) else res
        return self.binop(op, cur, rhs, n, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t, st)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, t, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            key = self.ev_slice(t.slice, st)
            self.setitem(o, key, v, t, st)
            if isinstance(o, Ref) and o.oid in st.heap:
                self.name_value(o, lambda: ast.unparse(t), st)

    def unpack(self, v, n, node, st):
        if isinstance(v, Ref):
            ob = st.heap[v.oid]
            if isinstance(ob, Seq) and ob.exact():
                if len(ob.segs) == n:
                    return [x for x, _ in ob.segs]
                if not any(isinstance(e, ast.Starred) for e in getattr(node, "elts", [])):
                    self.event("bad-unpack", node, "unpacks %d values into %d targets" % (len(ob.segs), n))
        e = self.elem(v, node, st)
        return [e] * n

    # -- control flow
    FORCE = {}                  # (file, line, column) of a condition -> the outcome assumed for it in this run

    def decided(self, n, t):
        """outcome of a branch: known, assumed for this run, or None (both sides are analysed and joined)"""
        if t is not None:
            return t
        f, q, line = self.where(n)
        site = (f, n.lineno, n.col_offset)
        self.forks.setdefault(site, (n, q))
        return self.FORCE.get(site)

    def s_If(self, n, st, out):
        t, tags = self.cond(n.test, st)
        t = self.decided(n, t)
        if t is True:
            self.refine(n.test, st, True)
            return self.exec_block(n.body, st, out)
        if t is False:
            self.refine(n.test, st, False)
            return self.exec_block(n.orelse, st, out)
        s2 = st.fork()
        pc = st.pc
        st.pc = s2.pc = pc | tags
        if miss.ON[0]:
            v = self.ev(n.test, st.fork())
            ft = miss.truthy(v.cell) if isinstance(v, Sc) else None
            st.facts = st.facts | {(ft, True)}
            s2.facts = s2.facts | {(ft, False)}
        self.refine(n.test, st, True)
        self.refine(n.test, s2, False)
        b, c = out.brk, out.cont
        r1 = self.exec_block(n.body, st, out)
        r2 = self.exec_block(n.orelse, s2, out)
        if r1 is not None and r2 is not None:
            e1, e2 = dict(r1.env), dict(r2.env)
            r = state_join(r1, r2, tags)
            r.pc = pc
            if miss.AVG[0]:
                for x in e1:
                    if x in e2 and e1[x] != e2[x] and x in r.env:
                        r.env[x] = miss.either(ft, r.env[x], e1[x], e2[x])
            return r
        r = r1 if r1 is not None else r2
        return r

    def s_While(self, n, st, out):
        cur = st
        exits = None
        for i in range(8):
            t, tags = self.cond(n.test, cur)
            if t is False:
                exits = state_join(exits, cur)
                break
            if t is None:
                e = cur.fork()
                self.refine(n.test, e, False)
                exits = state_join(exits, e)
                self.refine(n.test, cur, True)
            before = cur.fork()
            o = Out()
            o.rets = out.rets
            r = self.exec_block(n.body, cur, o)
            if o.brk is not None:
                exits = state_join(exits, o.brk)
            r = state_join(r, o.cont) if r is not None or o.cont is not None else None
            if r is None:
                break
            nxt = state_join(before, r) if t is None else r
            if state_same(before, nxt) and t is None:
                break
            cur = nxt
        else:
            exits = state_join(exits, cur)
        if exits is not None and n.orelse:
            exits = self.exec_block(n.orelse, exits, out)
        return exits

    def s_For(self, n, st, out):
        it = self.ev(n.iter, st)
        segs, tags = self.iterate(it, n.iter, st)
        exits = None
        cur = st
        facts0 = st.facts
        if len(segs) > 24:
            v = segs[0][0]
            for w, _ in segs[1:]:
                v = val_join(v, w)
            segs = [(v, True)]
        for v, multi in segs:
            if cur is None:
                break
            rounds = 6 if multi else 1
            acc = None
            steps = miss.counters(self, n, cur) if multi and miss.FORM[0] else {}
            for i in range(rounds):
                before = cur.fork()
                if miss.ON[0]:
                    cur.facts = facts0
                    v = miss.loopvar(self, v, n, cur)
                    for x, (t0, c) in steps.items():
                        cur.env[x] = miss.counted(self, v, t0, c, cur)
                self.assign(n.target, v, cur)
                o = Out()
                o.rets = out.rets
                r = self.exec_block(n.body, cur, o)
                if o.brk is not None:
                    exits = state_join(exits, o.brk)
                if o.cont is not None:
                    r = state_join(r, o.cont)
                if r is None:
                    cur = None
                    if multi and i > 0:
                        cur = acc
                    break
                if not multi:
                    cur = r
                    break
                acc = r if acc is None else state_join(acc, r)
                if state_same(before, acc):
                    cur = acc
                    break
                cur = acc
            if cur is not None:
                for x in steps:
                    cur.env[x] = miss.counted(self, None, None, 0, cur)
        if n.orelse and cur is not None:
            cur = self.exec_block(n.orelse, cur, out)
        r = state_join(exits, cur) if exits is not None or cur is not None else None
        if r is not None:
            r.facts = facts0
        return r

    s_AsyncFor = s_For

    def s_With(self, n, st, out):
        opened = []
        for it in n.items:
            v = self.ev(it.context_expr, st)
            name = None
            if isinstance(v, Ref) and isinstance(st.heap[v.oid], Opq):
                name = st.heap[v.oid].typ
            if isinstance(it.context_expr, ast.Call):
                d = dotted(it.context_expr.func)
                if d:
                    opened.append(d.split(".")[-1])
            self.with_stack = getattr(self, "with_stack", [])
            opened.append(name)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        self.with_stack = getattr(self, "with_stack", []) + opened
        try:
            return self.exec_block(n.body, st, out)
        finally:
            if opened:
                self.with_stack = self.with_stack[:-len(opened)]

    def s_Try(self, n, st, out):
        env0 = dict(st.env)
        start = st.fork()
        self.excs.append([])
        hn = set()
        for h in n.handlers:
            if h.type is None:
                hn = None
                break
            for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                hn.add((dotted(x) or "Exception").split(".")[-1])
        self.tries.append(hn)
        try:
            r = self.exec_block(n.body, st, out)
        finally:
            self.tries.pop()
        caught = self.excs.pop()
        names = []
        catchall = False
        for h in n.handlers:
            if h.type is None:
                catchall = True
                names.append(None)
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                nm = [dotted(x).split(".")[-1] if dotted(x) else "?" for x in ts]
                if "Exception" in nm or "BaseException" in nm:
                    catchall = True
                names.append(nm)
        res = r
        if n.orelse and res is not None:
            res = self.exec_block(n.orelse, res, out)
        rest = []
        for e in caught:
            if not any(nm is None or e.typ in nm or "Exception" in nm or "BaseException" in nm or
                       any(exc_sub(e.typ, x) for x in nm) for nm in names):
                rest.append(e)
        self.excs[-1].extend(rest)
        for h, nm in zip(n.handlers, names):
            hs = start.fork()
            if r is not None:
                hs = state_join(hs, r)
            for e in caught:
                if e not in rest:
                    es = State(dict(env0), e.state.heap, start.pc, start.facts)
                    hs = state_join(hs, es)
            if h.name:
                hs.env[h.name] = TOP
            self.in_handler = getattr(self, "in_handler", 0) + 1
            try:
                hr = self.exec_block(h.body, hs, out)
            finally:
                self.in_handler -= 1
            e1, e2 = dict(hr.env) if hr is not None else {}, dict(res.env) if res is not None else {}
            res = state_join(res, hr) if (res is not None or hr is not None) else None
            if miss.AVG[0]:
                for x in e1:
                    if x in e2 and e1[x] != e2[x] and x in res.env:
                        res.env[x] = miss.either(T.atom("raised"), res.env[x], e1[x], e2[x])
        if n.finalbody:
            if res is not None:
                res = self.exec_block(n.finalbody, res, out)
            else:
                fs = start.fork()
                self.exec_block(n.finalbody, fs, Out())
        return res

    s_TryStar = s_Try

    def s_Match(self, n, st, out):
        subj = self.ev(n.subject, st)
        res = None
        cur = st
        for c in n.cases:
            if cur is None:
                break
            t = self.match_pat(c.pattern, subj, cur)
            if t is False:
                continue
            s2 = cur.fork()
            if c.guard is not None:
                g, _ = self.cond(c.guard, s2)
                if g is False:
                    continue
                if g is None and t is True:
                    t = None
            r = self.exec_block(c.body, s2, out)
            res = state_join(res, r) if res is not None or r is not None else None
            if t is True:
                return res
        return state_join(res, cur) if res is not None or cur is not None else None

    def match_pat(self, p, subj, st):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.env[p.name] = subj
                return True
            r = self.match_pat(p.pattern, subj, st)
            if p.name:
                st.env[p.name] = subj
            return r
        if isinstance(p, ast.MatchValue):
            v = constof(self.ev(p.value, st))
            c = constof(subj)
            if v is NOC or c is NOC:
                return None
            return v == c
        if isinstance(p, ast.MatchSingleton):
            c = constof(subj)
            return None if c is NOC else c is p.value
        if isinstance(p, ast.MatchOr):
            rs = [self.match_pat(x, subj, st) for x in p.patterns]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        return None

    # ---- conditions -----------------------------------------------------
    def cond(self, test, st):
        v = self.ev(test, st)
        return self.truth(v, st), self.tags_of(v, st)

    def truth(self, v, st):
        if isinstance(v, Un):
            rs = {self.truth(a, st) for a in v.atoms}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(v, Sc):
            c = v.cell.const
            if c is NOC and v.cell.rep == "ge1":
                return True
            if c is NOC or isinstance(c, AbsStr):
                return None
            try:
                return bool(c)
            except Exception:
                return None
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, Seq):
                if not o.segs:
                    return False
                return True
            if isinstance(o, Dct):
                if o.rest is None:
                    return bool(o.items)
                return None
            if isinstance(o, Arr):
                if o.exact is not None and len(o.exact) == 1:
                    return self.truth(Sc(o.exact[0]), st)
                return None
            if isinstance(o, (Frame, Ser)):
                return None
            return True if isinstance(o, (Inst, Rng)) else None
        if isinstance(v, (FnV, ClsV, LibV, MethV, PartV, ModV)):
            return True
        return None

    def tags_of(self, v, st, deep=True):
        if isinstance(v, Sc):
            return v.cell.tags
        if isinstance(v, Top):
            return v.tags
        if isinstance(v, Un):
            t = EMPTY
            for a in v.atoms:
                t |= self.tags_of(a, st)
            return t
        if isinstance(v, Ref):
            return v.tags | self.obj_tags(v.oid, st, set())
        return EMPTY

    def obj_tags(self, oid, st, seen):
        if oid in seen or oid not in st.heap:
            return EMPTY
        seen.add(oid)
        o = st.heap[oid]
        t = o.tagset()
        if isinstance(o, Seq):
            for v, _ in o.segs:
                t |= self.vt(v, st, seen)
        elif isinstance(o, Dct):
            for v in o.items.values():
                t |= self.vt(v, st, seen)
            if o.rest is not None:
                t |= self.vt(o.rest, st, seen)
        elif isinstance(o, Ser):
            t |= frozenset().union(*[c.tags for c in o.ix.cells if c is not None]) if o.ix.cells else EMPTY
        elif isinstance(o, Grp):
            t |= self.vt(o.src, st, seen)
        return t

    def vt(self, v, st, seen):
        if isinstance(v, Ref):
            return v.tags | self.obj_tags(v.oid, st, seen)
        if isinstance(v, Un):
            return frozenset().union(*[self.vt(a, st, seen) for a in v.atoms])
        return self.tags_of(v, st) if not isinstance(v, Ref) else EMPTY

    def refine(self, test, st, pos):
        try:
            self._refine(test, st, pos)
        except Dead:
            pass

    def _refine(self, test, st, pos):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self._refine(test.operand, st, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pos or isinstance(test.op, ast.Or) and not pos:
                for v in test.values:
                    self._refine(v, st, pos)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                isnone = isinstance(op, (ast.Is, ast.Eq)) == pos
                self.filter_path(l, st, lambda a: (a == NONE) == isnone or isinstance(a, Top))
            return
        if isinstance(test, (ast.Name, ast.Attribute)):
            if pos:
                self.filter_path(test, st, lambda a: a != NONE)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            self.quiet += 1
            try:
                cls = self.ev(test.args[1], st)
            finally:
                self.quiet -= 1
            def keep(a):
                r = self.py.isinstance_(self, a, cls, st)
                return r is None or r == pos
            self.filter_path(test.args[0], st, keep)

    def filter_path(self, node, st, keep):
        if isinstance(node, ast.Name):
            v = st.env.get(node.id)
            if isinstance(v, Un):
                a = [x for x in v.atoms if keep(x)]
                if a and len(a) < len(v.atoms):
                    st.env[node.id] = mkun(a)
        elif isinstance(node, ast.Attribute):
            self.quiet += 1
            try:
                o = self.ev(node.value, st)
            finally:
                self.quiet -= 1
            if isinstance(o, Ref):
                ob = st.heap[o.oid]
                if hasattr(ob, "attrs"):
                    v = ob.attrs.get(node.attr)
                    if isinstance(v, Un):
                        a = [x for x in v.atoms if keep(x)]
                        if a and len(a) < len(v.atoms):
                            st.mut(o.oid).attrs[node.attr] = mkun(a)

    # ---- expressions ----------------------------------------------------
    def ev(self, n, st):
        return getattr(self, "e_" + type(n).__name__, self.e_other)(n, st)

    def e_other(self, n, st):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return TOP

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, (int, float, str, bool)) or v is None:
            return k(v)
        return Sc(Cell(const=v))

    def e_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def lookup(self, name, st, n):
        v = st.env.get(name)
        g = st.env.get("%global")
        if g and name in g:
            v = None
        if v is not None:
            if v == UNB:
                self.fail("unbound", n, "local name '%s' is unassigned here" % name, name=name, st=st)
            if isinstance(v, Un) and UNB in v.atoms:
                self.event("maybe-unbound", n, "local name '%s' may be unassigned here" % name, name=name)
                v = mkun([a for a in v.atoms if a != UNB])
                st.env[name] = v
            return v
        fi = self.stack[-1][0] if self.stack else None
        if fi is not None:
            if name in self.local_names(fi) and not self.module_level() and not (g and name in g):
                self.fail("unbound", n, "local name '%s' is unassigned here" % name, name=name, st=st)
            v = self.global_get(fi.module, name, st)
            if v is not None:
                return v
            if fi.module in self.loading:
                pass
        if name in self.py.BUILTINS:
            return LibV("builtins." + name)
        if name in ("__name__", "__file__", "__package__") and fi is not None and fi.module in self.prog.files:
            m = fi.module
            return k(m if name == "__name__" else os.path.join(os.path.abspath(self.prog.root), self.prog.files[m]) if name == "__file__"
                     else m if self.prog.is_pkg(m) else m.rpartition(".")[0])
        if name in ("__name__", "__file__", "__doc__", "__package__", "__path__"):
            return Sc(Cell(dt="str"))
        self.fail("undefined", n, "name '%s' is not defined" % name, name=name, st=st)

    def local_names(self, fi):
        r = getattr(fi, "_locals", None)
        if r is None:
            r = set()
            comp = set()
            if isinstance(fi.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                glob = set()
                todo = list(fi.node.body)
                while todo:
                    x = todo.pop()
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        r.add(x.name)
                        continue
                    if isinstance(x, ast.Lambda):
                        continue
                    if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for y in ast.walk(x):
                            if isinstance(y, ast.NamedExpr):
                                r.add(y.target.id)
                        continue
                    if isinstance(x, ast.Global) or isinstance(x, ast.Nonlocal):
                        glob |= set(x.names)
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        r.add(x.id)
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        r |= {(a.asname or a.name.split(".")[0]) for a in x.names}
                    todo.extend(ast.iter_child_nodes(x))
                r -= glob
            fi._locals = r
        return r

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.bind(n.target.id, v, st)
        return v

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Tuple(self, n, st):
        return self.mkseq(n, "tuple", st)

    def e_List(self, n, st):
        return self.mkseq(n, "list", st)

    def e_Set(self, n, st):
        return self.mkseq(n, "set", st)

    def mkseq(self, n, kind, st):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                s, _ = self.iterate(self.ev(e.value, st), e, st)
                segs += s
            else:
                segs.append((self.ev(e, st), False))
        return self.new(st, Seq(kind=kind, segs=segs), n)

    def seq(self, st, vals, kind="tuple", node=None):
        return self.new(st, Seq(kind=kind, segs=[(v, False) for v in vals]), node)

    def e_Dict(self, n, st):
        d = Dct()
        for kk, vv in zip(n.keys, n.values):
            v = self.ev(vv, st)
            if kk is None:
                self.py.dict_update(self, d, v, n, st)
                continue
            key = self.ev(kk, st)
            self.py.dict_put(d, key, v)
        return self.new(st, d, n)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(k(v.value))
            else:
                parts.append(self.py.format_value(self, self.ev(v.value, st), self.spec_of(v.format_spec, st), st,
                                                  v.conversion))
        r = parts[0] if parts else k("")
        for p in parts[1:]:
            r = self.binop("Add", r, p, n, st)
        return r

    def spec_of(self, fs, st):
        if fs is None:
            return ""
        out = ""
        for v in fs.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                c = constof(self.ev(v.value, st))
                if c is NOC:
                    return None
                out += str(c)
        return out

    def e_FormattedValue(self, n, st):
        return self.py.format_value(self, self.ev(n.value, st), self.spec_of(n.format_spec, st), st)

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(type(n.op).__name__, a, b, n, st)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        op = type(n.op).__name__
        if op == "Not":
            t = self.truth(v, st)
            tg = self.tags_of(v, st)
            r = Cell(tg, const=NOC if t is None else (not t), dt="bool")
            return Sc(miss.negate(r, v.cell) if isinstance(v, Sc) and t is None else r)
        return self.unop(op, v, n, st)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        return self._boolop(n.values, isand, st)

    def _boolop(self, vals, isand, st):
        v = self.ev(vals[0], st)
        if len(vals) == 1:
            return v
        t = self.truth(v, st)
        tg = self.tags_of(v, st)
        if t is not None:
            if t == isand:
                self.refine(vals[0], st, isand)
                r = self._boolop(vals[1:], isand, st)
                return tag_ctl(r, tg) if isinstance(r, Sc) else r
            return v
        s2 = st.fork()
        self.refine(vals[0], s2, isand)
        try:
            r = self._boolop(vals[1:], isand, s2)
            st.become(state_join(st, s2, tg))
            # a falsy/truthy first operand
            if isinstance(v, Un):
                v = mkun([a for a in v.atoms if self.truth(a, st) is not isand]) if any(self.truth(a, st) is not isand for a in v.atoms) else v
            j = val_join(v, r, tg)
            if miss.ON[0] and isinstance(j, Sc) and isinstance(v, Sc) and isinstance(r, Sc) and t is None:
                # a decided second operand does not change what the first one says
                both = (v.cell, r.cell) if r.cell.const is NOC else (v.cell, v.cell)
                j = Sc(miss.combine(j.cell, "and" if isand else "or", *both))
            return j
        except Dead:
            return v

    def e_IfExp(self, n, st):
        t, tags = self.cond(n.test, st)
        t = self.decided(n, t)
        if t is True:
            self.refine(n.test, st, True)
            return self.ev(n.body, st)
        if t is False:
            self.refine(n.test, st, False)
            return self.ev(n.orelse, st)
        s2 = st.fork()
        self.refine(n.test, st, True)
        self.refine(n.test, s2, False)
        va = vb = None
        try:
            va = self.ev(n.body, st)
        except Dead:
            pass
        try:
            vb = self.ev(n.orelse, s2)
        except Dead:
            pass
        if va is None and vb is None:
            raise Dead()
        if va is None:
            st.become(s2)
            return vb
        if vb is None:
            return va
        st.become(state_join(st, s2, tags))
        r = val_join(va, vb, tags)
        if miss.ON[0] and isinstance(r, Sc) and isinstance(va, Sc) and isinstance(vb, Sc):
            c = self.ev(n.test, s2.fork())
            if isinstance(c, Sc):
                t = None
                ts = [x.term or miss.nanterm(x) for x in (va.cell, vb.cell)]
                if r.cell.term is None and None not in ts and c.cell.term is not None:
                    t = T.atom("ite", c.cell.term, *ts)
                r = Sc(miss.select(r.cell.w(term=t) if t is not None else r.cell, c.cell, va.cell, vb.cell))
                if t is None:
                    r = miss.either(c.cell.term, r, va, vb)
        return r

    def e_Compare(self, n, st):
        l = self.ev(n.left, st)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn, st)
            v = self.compare(type(op).__name__, l, r, n, st)
            l = r
            if res is None:
                res = v
            else:
                t = self.truth(res, st)
                if t is False:
                    return res
                res = v if t is True else Sc(Cell(self.tags_of(res, st) | self.tags_of(v, st), dt="bool"))
        return res

    def e_Lambda(self, n, st):
        fi = self.make_func(n, st)
        return FnV(fi, cells=dict(st.env))

    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.getattr(o, n.attr, n, st)

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        key = self.ev_slice(n.slice, st)
        if miss.TST[0] and isinstance(key, SliceV) and isinstance(o, Ref) and isinstance(st.heap.get(o.oid), dom.Seq):
            self.event("cut", n, ast.unparse(n), by=tuple(constof(x) for x in (key.lo, key.hi, key.step)), tags=self.tags_of(o, st))
        return self.getitem(o, key, n, st)

    def ev_slice(self, n, st):
        if isinstance(n, ast.Slice):
            return self.e_Slice(n, st)
        if isinstance(n, ast.Tuple):
            return self.new(st, Seq(kind="tuple", segs=[(self.ev_slice(e, st), False) for e in n.elts]), n)
        return self.ev(n, st)

    def e_Slice(self, n, st):
        f = lambda x: NONE if x is None else self.ev(x, st)
        # where a window starts and ends does not apply the link-ratio selection (C04)
        b = [f(n.lower), f(n.upper), f(n.step)]
        for j, x in enumerate(b):
            if isinstance(x, Sc) and "sel" in x.cell.tags:
                b[j] = Sc(x.cell.w(tags=x.cell.tags - {"sel"}))
        return SliceV(*b)

    # comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "gen")

    def comp(self, n, st, kind):
        segs = []
        order = []
        def leaf(s, multi, tags, ordr):
            v = self.ev(n.elt, s)
            segs.append((tag_ctl(v, tags), multi))
            order.append(ordr)
        self.comp_gen(n.generators, 0, st, False, EMPTY, None, leaf)
        o = order[0] if order and len(n.generators) == 1 and not n.generators[0].ifs else None
        if miss.FORM[0] and (kind == "set" or any(g.ifs for g in n.generators)):
            segs = [(miss.loose(v), m) for v, m in segs]
        return self.new(st, Seq(kind=kind, segs=segs, order=o), n)

    def e_DictComp(self, n, st):
        d = Dct()
        def leaf(s, multi, tags, ordr):
            key = self.ev(n.key, s)
            v = tag_ctl(self.ev(n.value, s), tags)
            self.py.dict_put(d, key, v, multi)
        self.comp_gen(n.generators, 0, st, False, EMPTY, None, leaf)
        return self.new(st, d, n)

    def comp_gen(self, gens, i, st, multi, tags, ordr, leaf):
        g = gens[i]
        it = self.ev(g.iter, st)
        segs, tg = self.iterate(it, g.iter, st)
        o = self.order_of(it, st)
        names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        saved = {x: st.env.get(x) for x in names}
        if len(segs) > 40:
            v = segs[0][0]
            for w, _ in segs[1:]:
                v = val_join(v, w)
            segs = [(v, True)]
        for v, m in segs:
            self.assign(g.target, v, st)
            mm = multi or m
            ctl = tags
            skip = False
            undec = False
            for c in g.ifs:
                t, ct = self.cond(c, st)
                if t is False:
                    skip = True
                    break
                if t is None:
                    undec = True
                    ctl = ctl | ct
                    self.refine(c, st, True)
            if skip:
                continue
            if i + 1 < len(gens):
                self.comp_gen(gens, i + 1, st, mm or undec, ctl, None, leaf)
            else:
                try:
                    leaf(st, mm or undec, ctl, o if not undec else None)
                except Dead:
                    pass
        for x in names:
            if saved[x] is None:
                st.env.pop(x, None)
            else:
                st.env[x] = saved[x]

    def order_of(self, v, st):
        if isinstance(v, Ref):
            return getattr(st.heap[v.oid], "order", None)
        return None

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.env:
            fi = self.stack[-1][0]
            if fi.cls is not None and fi.pos:
                return SuperV(st.env.get(fi.pos[0], TOP), fi.cls.qual)
            if fi.cls is not None:
                return TOP
        f = self.ev(n.func, st)
        args, kwargs, star = [], {}, False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                segs, _ = self.iterate(v, a, st)
                for x, m in segs:
                    args.append(x)
                    if m:
                        star = True
            else:
                args.append(self.ev(a, st))
        for kw in n.keywords:
            v = self.ev(kw.value, st)
            if kw.arg is None:
                for a in atoms_of(v):
                    if isinstance(a, Ref) and isinstance(st.heap[a.oid], Dct):
                        d = st.heap[a.oid]
                        for kk, vv in d.items.items():
                            if isinstance(kk, str):
                                kwargs[kk] = vv
                        if d.rest is not None:
                            kwargs.setdefault("**", d.rest)
                    else:
                        kwargs.setdefault("**", TOP)
            else:
                kwargs[kw.arg] = v
        if star:
            kwargs.setdefault("*", TOP)
        return self.call(f, args, kwargs, n, st)

    # ---- calls ----------------------------------------------------------
    def call(self, f, args, kwargs, node, st):
        self.calls += 1
        if isinstance(f, Un):
            return self.per_atom(f, lambda a, s: self.call(a, args, kwargs, node, s), st)
        if isinstance(f, FnV):
            return self.call_user(f, args, kwargs, node, st)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs, node, st)
        if isinstance(f, MethV):
            return self.guard(self.pd.method, (self, f, args, kwargs, node, st), f, node, st)
        if isinstance(f, LibV):
            return self.guard(self.np.lib_call, (self, f.name, args, kwargs, node, st), None, node, st)
        if isinstance(f, PartV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw, node, st)
        if isinstance(f, Ref):
            o = st.heap[f.oid]
            if isinstance(o, Inst) or isinstance(o, Frame) and o.cls:
                m = self.find_member(o.cls, "__call__")
                if m is not None:
                    return self.call_user(FnV(m, f), args, kwargs, node, st)
            if isinstance(o, Opq):
                return self.guard(self.np.opq_call, (self, f, args, kwargs, node, st), None, node, st)
        if f == NONE:
            self.fail("bad-call", node, "calls None", st=st)
        return self.opaque(args, kwargs, st)

    def opaque(self, args, kwargs, st, extra=EMPTY):
        t = extra
        for v in list(args) + list(kwargs.values()):
            t |= self.tags_of(v, st)
        return Top(t)

    def per_atom(self, v, fn, st):
        """apply fn to each atom on forked states and join the results"""
        res, js = None, None
        for a in v.atoms:
            if a == UNB:
                continue
            s = st.fork()
            try:
                r = fn(a, s)
            except Dead:
                continue
            if js is None:
                res, js = r, s
            else:
                js = state_join(js, s)
                res = self.join_fresh(res, r, js, st)
        if js is None:
            raise Dead()
        st.become(js)
        return res

    def join_fresh(self, a, b, st, old):
        """join two results; objects created by this step are merged structurally"""
        if a == b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid not in old.heap and b.oid not in old.heap:
            x, y = st.heap[a.oid], st.heap[b.oid]
            if type(x) is type(y) and not isinstance(x, (Inst, Rng)) and not (isinstance(x, Grp) and x.src != y.src):
                st.heap[a.oid] = obj_join(x, y, a.tags | b.tags)
                return Ref(a.oid, a.tags | b.tags)
        return val_join(a, b)

    def find_member(self, cls, name, after=None):
        for c in self.mro(cls):
            if after is not None:
                if c == after:
                    after = None
                continue
            ci = self.classes.get(c)
            if ci is not None and name in ci.members:
                return ci.members[name]
        return None

    def find_clsattr(self, cls, name, st):
        for c in self.mro(cls):
            ci = self.classes.get(c)
            if ci is not None and name in st.heap[ci.oid].attrs:
                return st.heap[ci.oid].attrs[name]
        return None

    def mro(self, cls):
        """names of user classes, then 'lib:<name>' entries"""
        if cls is None or cls not in self.classes:
            return []
        out, seen = [], set()
        def walk(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            for b in self.classes[c].bases:
                if isinstance(b, ClsV):
                    walk(b.name)
                elif isinstance(b, LibV):
                    out.append("lib:" + b.name)
        walk(cls)
        return out

    def is_frame_cls(self, cls):
        return any(c in ("lib:pandas.DataFrame", "lib:pandas.core.frame.DataFrame") for c in self.mro(cls))

    def known_bases(self, cls):
        """true when every base of the class is a modelled one"""
        ok = {"lib:pandas.DataFrame", "lib:builtins.object", "lib:abc.ABC"}
        for c in self.mro(cls):
            if c.startswith("lib:"):
                if c not in ok:
                    return False
            else:
                if not all(isinstance(b, (ClsV, LibV)) for b in self.classes[c].bases):
                    return False
        return True

    def instantiate(self, f, args, kwargs, node, st):
        cls = f.name
        if self.is_frame_cls(cls):
            ref = self.new(st, Frame(cls=cls), node)
        else:
            ref = self.new(st, Inst(cls=cls), node)
        init = self.find_member(cls, "__init__")
        if init is not None:
            self.call_user(FnV(init, ref), args, kwargs, node, st)
            if miss.ON[0]:
                miss.built(self, ref, st)
        elif self.is_frame_cls(cls):
            self.pd.frame_init(self, ref, args, kwargs, node, st)
        elif any(c.startswith("lib:") and c not in ("lib:builtins.object", "lib:abc.ABC") for c in self.mro(cls)):
            return Top(self.tags_of(ref, st)) if "lib:builtins.Exception" in self.mro(cls) else ref
        elif args or [x for x in kwargs if x not in ("*", "**")]:
            if any(d for d in self.classes[cls].node.decorator_list):
                o = st.mut(ref.oid)
                flds = [s.target.id for s in self.classes[cls].node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
                for nme, v in list(zip(flds, args)) + [(a, b) for a, b in kwargs.items()]:
                    o.attrs[nme] = v
            else:
                self.event("bad-call", node, "%s() takes no arguments" % cls)
        return ref

    def bind_args(self, fi, args, kwargs, node, st):
        env = {}
        fuzzy = "*" in kwargs or "**" in kwargs
        kw = {a: b for a, b in kwargs.items() if a not in ("*", "**")}
        pos = fi.pos
        rest = []
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
        posonly = {a.arg for a in fi.node.args.posonlyargs}
        if rest and not fi.vararg and not fuzzy:
            self.fail("bad-call", node, "%s() takes %d positional arguments but %d were given" % (fi.qual, len(pos), len(args)), st=st)
        extra = {}
        for a, v in kw.items():
            if a in pos and a not in posonly or a in fi.kwonly:
                if a in env:
                    if not fuzzy:
                        self.fail("bad-call", node, "%s() got multiple values for argument '%s'" % (fi.qual, a), st=st)
                env[a] = v
            elif fi.kwarg:
                extra[a] = v
            else:
                self.fail("bad-call", node, "%s() got an unexpected keyword argument '%s'" % (fi.qual, a), st=st)
        nd = len(fi.defaults)
        for i, p in enumerate(pos):
            if p not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[p] = fi.defaults[j]
                    if fuzzy and "**" in kwargs:
                        env[p] = val_join(env[p], kwargs["**"])
                elif fuzzy:
                    env[p] = TOP
                else:
                    self.fail("bad-call", node, "%s() missing required argument '%s'" % (fi.qual, p), st=st)
        for p in fi.kwonly:
            if p not in env:
                if p in fi.kwdefaults:
                    env[p] = fi.kwdefaults[p]
                elif fuzzy:
                    env[p] = TOP
                else:
                    self.fail("bad-call", node, "%s() missing required argument '%s'" % (fi.qual, p), st=st)
        if fi.vararg:
            env[fi.vararg] = self.new(st, Seq(kind="tuple", segs=[(v, False) for v in rest]), node)
        if fi.kwarg:
            d = Dct(items=dict(extra))
            if "**" in kwargs:
                d.rest = kwargs["**"]
            env[fi.kwarg] = self.new(st, d, node)
        return env

    def call_user(self, f, args, kwargs, node, st):
        fi = f.info
        if f.bound is not None and fi.kind != "static":
            args = [f.bound] + list(args)
        if len(self.stack) > MAXDEPTH or sum(1 for x, _ in self.stack if x is fi) > 2:
            return self.opaque(args, kwargs, st)
        env = self.bind_args(fi, args, kwargs, node, st)
        ckey = None
        if fi.cache:
            ckey = tuple(sorted((p, repr_key(v)) for p, v in env.items()))
            c = st.env.get("%cache")
            co = self.cache_obj(fi, st)
            hit = st.heap[co].items.get(ckey)
            if hit is not None:
                return hit
        self.visited.add(fi.qual)
        saved = st.env
        base = dict(f.cells) if f.cells else {}
        base.pop("%global", None)
        base.update(env)
        self.stack.append((fi, node))
        st.env = base
        pc = st.pc
        st.pc = EMPTY
        out = Out()
        ok = False
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, st)
                ok = True
                rets = [(st, v)]
            else:
                gen = is_generator(fi.node)
                if gen:
                    self.yields = getattr(self, "yields", [])
                    self.yields.append([])
                r = self.exec_block(fi.node.body, st, out)
                rets = out.rets
                if r is not None:
                    rets = rets + [(r, NONE)]
                if gen:
                    ys = self.yields.pop()
                    s = None
                    for a, _ in rets:
                        s = state_join(s, a)
                    if s is not None:
                        rets = [(s, self.new(s, Seq(kind="gen", segs=[(y, True) for y in ys]), node))]
        finally:
            self.stack.pop()
            if not ok:
                st.env = saved
                st.pc = pc
        if not rets:
            raise Dead()
        js, val = rets[0]
        if len(rets) > 1:
            tags = EMPTY
            for s, _ in rets:
                tags |= s.pc
            for s, v in rets[1:]:
                f0 = js.facts
                j2 = state_join(js, s, tags)
                # merge fresh objects returned on different paths
                if isinstance(val, Ref) and isinstance(v, Ref) and val.oid != v.oid \
                        and val.oid not in self.live_before(st) and v.oid not in self.live_before(st):
                    x, y = j2.heap[val.oid], j2.heap[v.oid]
                    if type(x) is type(y) and isinstance(x, (Frame, Ser, Arr, Seq)) and not x.owner and not y.owner \
                            and getattr(x, "cls", None) == getattr(y, "cls", None) and not self.reach_elsewhere(j2, val.oid, v.oid):
                        j2.heap[val.oid] = obj_join(x, y, tags)
                        val = Ref(val.oid, val.tags | v.tags)
                        js = j2
                        continue
                val = miss.either(miss.both(f0 - s.facts), val_join(val, v, tags), val, v) if miss.AVG[0] else val_join(val, v, tags)
                js = j2
        js.env = saved
        st.become(js)
        st.env = saved
        st.pc = pc
        if not isinstance(fi.node, ast.Lambda):
            self.stack.append((fi, node))
            val = self.name_value(val, lambda: "return", st)
            self.stack.pop()
        if fi.cache:
            co = self.cache_obj(fi, st)
            st.mut(co).items[ckey] = val
        return val

    def live_before(self, st):
        return ()

    def reach_elsewhere(self, st, a, b):
        for o in st.heap.values():
            vals = ()
            if isinstance(o, (Inst, Frame)):
                vals = o.attrs.values()
            for v in vals:
                for x in atoms_of(v):
                    if isinstance(x, Ref) and x.oid in (a, b):
                        return True
        return False

    def cache_obj(self, fi, st):
        key = "cache:" + fi.qual
        if key not in self.modobj:
            self.modobj[key] = self.new(self.st0, Dct()).oid
        oid = self.modobj[key]
        if oid not in st.heap:
            st.heap[oid] = Dct(site=("", fi.qual, 0))
        return oid

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        if getattr(self, "yields", None):
            self.yields[-1].append(v)
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        segs, _ = self.iterate(v, n, st)
        if getattr(self, "yields", None):
            self.yields[-1].extend(x for x, _ in segs)
        return NONE

    # ---- attribute access ------------------------------------------------
    def getattr(self, o, name, n, st):
        if isinstance(o, Un):
            return self.per_atom(o, lambda a, s: self.getattr(a, name, n, s), st)
        if isinstance(o, LibV):
            return self.np.lib_attr(self, o.name, name, n, st)
        if isinstance(o, ModV):
            sub = o.name + "." + name
            v = self.global_get(o.name, name, st)
            if v is not None:
                return v
            if sub in self.prog.trees:
                self.load_if(sub, st)
                return ModV(sub)
            if o.name in self.loading:
                if self.stack[-1][0].module == o.name and name in st.env:
                    return st.env[name]
                return TOP
            self.event("missing-name", n, "module %s has no attribute %s" % (o.name, name))
            return TOP
        if isinstance(o, ClsV):
            ci = self.classes[o.name]
            m = self.find_member(o.name, name)
            if m is not None:
                return FnV(m, o if m.kind == "classm" else None)
            v = self.find_clsattr(o.name, name, st)
            if v is not None:
                return v
            if name in ("__name__", "__qualname__", "__doc__", "__module__"):
                return Sc(Cell(dt="str"))
            if self.is_frame_cls(o.name):
                return LibV("pandas.DataFrame." + name)
            return TOP
        if isinstance(o, SuperV):
            return self.super_attr(o, name, n, st)
        if isinstance(o, Ref):
            return self.obj_attr(o, name, n, st)
        if isinstance(o, Sc):
            if o == NONE:
                self.fail("missing-attr", n, "None has no attribute '%s'" % name, attr=name, st=st)
            return self.py.scalar_attr(self, o, name, n, st)
        if isinstance(o, MethV):
            return self.pd.accessor_attr(self, o, name, n, st)
        if isinstance(o, FnV):
            if name in ("__name__", "__doc__", "__qualname__"):
                return k(o.info.name)
            a = getattr(o.info, "fattrs", None)
            if a and name in a:
                return a[name]
            if name in ("cache_clear", "cache_info"):
                return LibV("builtins.print")
            return TOP
        if isinstance(o, Top):
            return o
        return TOP

    def super_attr(self, o, name, n, st):
        obj = o.obj
        cls = None
        if isinstance(obj, Ref):
            cls = getattr(st.heap[obj.oid], "cls", None)
        elif isinstance(obj, ClsV):
            cls = obj.name
        m = self.find_member(cls, name, after=o.cls) if cls else None
        if m is not None:
            if m.kind == "prop":
                return self.call_user(FnV(m, obj), [], {}, n, st)
            return FnV(m, obj)
        if cls and self.is_frame_cls(cls):
            if name == "__init__":
                return MethV(obj, "%frame_init")
            if name in ("__setattr__", "__getattr__", "__getattribute__"):
                return MethV(obj, "%super" + name)
            return self.pd.frame_attr(self, obj, name, n, st, plain=True)
        if name in ("__init__", "__init_subclass__", "__setattr__"):
            return MethV(obj, "%super" + name)
        if cls and self.known_bases(cls) and not name.startswith("__"):
            self.event("missing-attr", n, "super() has no attribute '%s'" % name, attr=name)
        return TOP

    def obj_attr(self, o, name, n, st):
        ob = st.heap[o.oid]
        cls = getattr(ob, "cls", None)
        if isinstance(cls, str) and cls.startswith("module:"):
            return ob.attrs.get(name, TOP)
        if cls is not None:
            m = self.find_member(cls, name)
            if m is not None:
                if m.kind == "prop":
                    v = self.call_user(FnV(m, o), [], {}, n, st)
                    return miss.attribute(self, o, name, v, st) if miss.ON[0] else v
                if m.kind == "cachedprop":
                    v = ob.attrs.get(name)
                    if v is not None:
                        return v
                    v = self.call_user(FnV(m, o), [], {}, n, st)
                    st.mut(o.oid).attrs[name] = v
                    return v
                if m.kind == "static":
                    return FnV(m)
                if m.kind == "classm":
                    return FnV(m, ClsV(cls))
                return FnV(m, o)
        if isinstance(ob, (Inst, Frame)):
            v = ob.attrs.get(name)
            if v is not None:
                if v == UNB:
                    self.fail("missing-attr", n, "attribute '%s' is not set" % name, attr=name, st=st)
                if isinstance(v, Un) and UNB in v.atoms:
                    v = mkun([a for a in v.atoms if a != UNB])
                return tag_ctl(v, o.tags)
        if cls is not None:
            v = self.find_clsattr(cls, name, st)
            if v is not None:
                return v
        if isinstance(ob, Inst):
            if name == "__class__":
                return ClsV(cls) if cls else TOP
            if name == "__dict__":
                return self.new(st, Dct(items=dict(ob.attrs)), n)
            if cls and self.find_member(cls, "__getattr__"):
                return self.call_user(FnV(self.find_member(cls, "__getattr__"), o), [k(name)], {}, n, st)
            if cls and self.known_bases(cls) and not ob.attrs.get("%open") and not name.startswith("__"):
                self.fail("missing-attr", n, "'%s' object has no attribute '%s'" % (cls, name), attr=name, cls=cls, st=st)
            return Top(ob.tagset())
        return self.pd.attr(self, o, name, n, st)

    def setattr(self, o, name, v, n, st):
        if isinstance(o, Un):
            for a in o.atoms:
                self.setattr(a, name, v, n, st)
            return
        if isinstance(o, ClsV):
            ci = self.classes[o.name]
            self.event("class-store", n, "assigns class attribute %s.%s" % (o.name, name))
            st.mut(ci.oid).attrs[name] = v
            return
        if isinstance(o, LibV):
            self.event("lib-store", n, "assigns %s.%s" % (o.name, name), name=o.name + "." + name,
                       scoped=self.np.effect_scoped(self, o.name))
            return
        if isinstance(o, FnV):
            self.event("global-store", n, "assigns function attribute %s.%s" % (o.info.qual, name), name=name)
            d = getattr(o.info, "fattrs", None)
            if d is None:
                d = o.info.fattrs = {}
            d[name] = v
            return
        if not isinstance(o, Ref):
            return
        ob = st.heap[o.oid]
        cls = getattr(ob, "cls", None)
        if isinstance(cls, str) and cls.startswith("module:"):
            self.event("global-store", n, "assigns module global %s" % name, name=name)
            st.mut(o.oid).attrs[name] = v
            return
        if isinstance(ob, Opq):
            self.np.opq_setattr(self, o, name, v, n, st)
            return
        if cls is not None:
            m = self.find_member(cls, name)
            if m is not None and m.setter is not None:
                self.call_user(FnV(m.setter, o), [v], {}, n, st)
                return
            if m is not None and m.kind == "prop":
                self.fail("missing-attr", n, "property '%s' of %s has no setter" % (name, cls), attr=name, st=st)
        if isinstance(ob, Inst):
            if ob.owner:
                self.attr_overwrite(o, name, v, n, st)
            st.mut(o.oid).attrs[name] = v
            return
        if isinstance(ob, Frame) and ob.cls is not None and not self.pd.is_pandas_attr("DataFrame", name) \
                and name not in ob.cols:
            if ob.owner:
                self.attr_overwrite(o, name, v, n, st)
            st.mut(o.oid).attrs[name] = v
            return
        self.pd.set_attr(self, o, name, v, n, st)

    def attr_overwrite(self, o, name, v, n, st):
        """attribute (re)binding on an object owned by somebody else's view"""
        ob = st.heap[o.oid]
        old = ob.attrs.get(name)
        if old is None or old == NONE:
            if name.startswith("_"):
                self.event("memo", n, "fills %s" % name, attr=name)
                return
        self.event("attr-store", n, "rebinds attribute '%s'" % name, attr=name, owner=ob.owner,
                   private=name.startswith("_"), old=old, new=v)

    # ---- items ------------------------------------------------------------
    def getitem(self, o, key, n, st):
        if isinstance(o, Un):
            return self.per_atom(o, lambda a, s: self.getitem(a, key, n, s), st)
        if isinstance(key, Un):
            return self.per_atom(key, lambda a, s: self.getitem(o, a, n, s), st)
        if isinstance(o, Ref):
            ob = st.heap[o.oid]
            cls = getattr(ob, "cls", None)
            if cls is not None:
                m = self.find_member(cls, "__getitem__")
                if m is not None:
                    return self.call_user(FnV(m, o), [key], {}, n, st)
            return self.guard(self.pd.getitem, (self, o, key, n, st), None, n, st)
        if isinstance(o, MethV):
            return self.guard(self.pd.accessor_get, (self, o, key, n, st), None, n, st)
        if isinstance(o, Sc):
            return self.py.str_getitem(self, o, key, n, st)
        if isinstance(o, LibV):
            return self.np.lib_getitem(self, o.name, key, n, st)
        return Top(self.tags_of(o, st) | self.tags_of(key, st))

    def setitem(self, o, key, v, n, st):
        if isinstance(o, Un):
            for a in o.atoms:
                self.setitem(a, key, v, n, st)
            return
        if isinstance(o, Ref):
            ob = st.heap[o.oid]
            cls = getattr(ob, "cls", None)
            if cls is not None:
                m = self.find_member(cls, "__setitem__")
                if m is not None:
                    self.call_user(FnV(m, o), [key, v], {}, n, st)
                    return
            self.guard(self.pd.setitem, (self, o, key, v, n, st), o, n, st)
        elif isinstance(o, MethV):
            self.guard(self.pd.accessor_set, (self, o, key, v, n, st), o, n, st)
        elif isinstance(o, LibV):
            self.event("lib-store", n, "assigns an item of %s" % o.name, name=o.name, scoped=self.np.effect_scoped(self, o.name))

    # ---- mutation -----------------------------------------------------------
    def mutate(self, o, n, st, what, key=None):
        """record an in-place change of an object (and of what it is a view of)"""
        if not isinstance(o, Ref):
            return
        seen = set()
        oid = o.oid
        while oid is not None and oid not in seen and oid in st.heap:
            seen.add(oid)
            ob = st.heap[oid]
            if ob.owner:
                kind = "Series" if isinstance(ob, Ser) else type(ob).__name__
                self.event("mutation", n, "%s on %s" % (what, "/".join(sorted(ob.owner))),
                           owner=ob.owner, oid=oid, what=what, otype=type(ob).__name__, key=key, site=ob.site)
            oid = ob.base

    # ---- operators: delegated --------------------------------------------
    def binop(self, op, a, b, n, st):
        return self.guard(self.np.binop, (self, op, a, b, n, st), None, n, st)

    def unop(self, op, v, n, st):
        return self.guard(self.np.unop, (self, op, v, n, st), None, n, st)

    def compare(self, op, a, b, n, st):
        return self.guard(self.np.compare, (self, op, a, b, n, st), None, n, st)

    def iterate(self, v, n, st):
        """-> (segments, tags)"""
        return self.py.iterate(self, v, n, st)

    def elem(self, v, n, st):
        segs, tags = self.iterate(v, n, st)
        if not segs:
            return TOP
        r = segs[0][0]
        for x, _ in segs[1:]:
            r = val_join(r, x)
        return r


def is_generator(node):
    r = getattr(node, "_is_gen", None)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            todo.extend(ast.iter_child_nodes(x))
        node._is_gen = r
    return r


def repr_key(v):
    if isinstance(v, Sc):
        return ("c", repr(v.cell.key()))
    if isinstance(v, Ref):
        return ("r", v.oid)
    return ("v", repr(v))


def constof(v):
    return v.cell.const if isinstance(v, Sc) else NOC


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + "." + n.attr if b else None
    return None


SUB = {"KeyError": "LookupError", "IndexError": "LookupError", "ZeroDivisionError": "ArithmeticError",
       "NotImplementedError": "RuntimeError", "UnicodeDecodeError": "ValueError"}


def exc_sub(t, sup):
    while t in SUB:
        t = SUB[t]
        if t == sup:
            return True
    return False
