"""Model of builtins, containers and strings."""
import builtins as _b
import itertools as _it
from .dom import *
from . import terms as T
from . import miss

BUILTINS = set(dir(_b))


def constof(v):
    return v.cell.const if isinstance(v, Sc) else NOC


def sc(tags=EMPTY, **kw):
    return Sc(Cell(tags, **kw))


def alltags(I, args, kwargs, st):
    t = EMPTY
    for v in list(args) + list(kwargs.values()):
        t |= I.tags_of(v, st)
    return t


# ---- iteration ----------------------------------------------------------
def iterate(I, v, n, st):
    if isinstance(v, Un):
        segs, tags = [], EMPTY
        best = None
        for a in v.atoms:
            if a == UNB or a == NONE:
                continue
            s, t = iterate(I, a, n, st)
            tags |= t
            if best is None:
                best = list(s)
            elif len(best) == len(s) and all(x[1] == y[1] for x, y in zip(best, s)):
                best = [(val_join(x[0], y[0]), x[1]) for x, y in zip(best, s)]
            else:
                both = best + list(s)
                if both:
                    j = both[0][0]
                    for w, _ in both[1:]:
                        j = val_join(j, w)
                    best = [(j, True)]
        return best or [], tags
    if isinstance(v, Sc):
        c = v.cell.const
        if isinstance(c, str):
            return [(k(x, v.cell.tags), False) for x in c], v.cell.tags
        if isinstance(c, (tuple, list, set, frozenset)):
            return [(k(x, v.cell.tags), False) for x in c], v.cell.tags
        if isinstance(c, range) and len(c) <= 24:
            return [(k(x, v.cell.tags), False) for x in c], v.cell.tags
        if v == NONE:
            I.fail("type-error", n, "iterates over None", st=st)
        return [(Sc(Cell(v.cell.tags)), True)], v.cell.tags
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, Seq):
            return [(tag_ctl(x, v.tags), m) for x, m in o.segs], v.tags
        if isinstance(o, Dct):
            segs = [(k(key) if not isinstance(key, tuple) or key[:1] != ("%",) else Sc(key[1]), False) for key in o.items]
            if o.rest is not None:
                segs.append((sc(I.tags_of(o.rest, st)), True))
            return segs, EMPTY
        if isinstance(o, Arr):
            if o.exact is not None:
                return [(Sc(c), False) for c in o.exact], o.cell.tags
            if o.nd == 2:
                return [(I.new(st, Arr(cell=o.cell), n), True)], o.cell.tags
            if o.special and o.ix is not None:
                return [(Sc(o.cell), True)] + [(Sc(c), False) for c in o.special.values()], o.cell.tags
            return [(Sc(o.cell.w(const=NOC) if o.cell.const is not NOC and o.cell.dt == "num" else o.cell), True)], o.cell.tags
        if isinstance(o, Ser):
            segs = []
            if o.cell is not None:
                segs.append((Sc(o.cell), True))
            for c in o.special.values():
                segs.append((Sc(c), False))
            return segs, o.tagset()
        if isinstance(o, Idx):
            return idx_segs(o.ix), EMPTY
        if isinstance(o, Frame):
            return frame_col_segs(o), EMPTY
        if isinstance(o, Grp):
            f = st.heap[o.src.oid] if isinstance(o.src, Ref) else None
            if isinstance(f, Frame):
                sub = I.pd.fresh_frame(I, f, n, st)
                key = sc(I.tags_of(o.src, st))
                labs = [I.pd.col_cell(f, kk) for kk in o.keys]
                if len(labs) == 1 and labs[0] is not None:
                    key = Sc(labs[0])
                return [(I.seq(st, [key, sub], node=n), True)], EMPTY
            return [(TOP, True)], EMPTY
        if isinstance(o, Opq):
            if o.typ == "axes2":
                return [(I.new(st, Opq(typ="ax", cell=o.cell), n), True)], o.cell.tags
            if o.typ in ("axes", "axlist"):
                return [(I.new(st, Opq(typ="ax", cell=o.cell), n), True)], o.cell.tags
            return [(Top(o.cell.tags), True)], o.cell.tags
    if isinstance(v, Top):
        return [(v, True)], v.tags
    t = I.tags_of(v, st)
    return [(Top(t), True)], t


def idx_segs(ix):
    if len(ix.cells) > 1:
        return [(Sc(Cell(frozenset().union(*[c.tags for c in ix.cells]))), True)]
    segs = []
    if ix.cells and ix.cells[0] is not None:
        segs.append((Sc(ix.cells[0]), True))
    return segs + [(k(s), False) for s in ix.special]


def frame_col_segs(o):
    segs = []
    names = list(o.cols)
    if o.rest is not None:
        segs.append((Sc(Cell(lab=o.restlab, dt="label")), True))
    return segs + [(k(x), False) for x in names] + ([(sc(dt="str"), True)] if o.open else [])


# ---- dict helpers ---------------------------------------------------------
def dkey(v):
    c = constof(v)
    if c is not NOC:
        try:
            hash(c)
            return c
        except TypeError:
            return None
    if isinstance(v, Sc) and v.cell.lab:
        return None
    return None


def dict_put(d, key, v, multi=False):
    kk = dkey(key)
    if kk is not None or constof(key) is None:
        d.items[kk] = v
    else:
        d.rest = v if d.rest is None else val_join(d.rest, v)


def dict_update(I, d, v, n, st):
    for a in atoms_of(v):
        if isinstance(a, Ref):
            o = st.heap[a.oid]
            if isinstance(o, Dct):
                d.items.update(o.items)
                if o.rest is not None:
                    d.rest = o.rest if d.rest is None else val_join(d.rest, o.rest)
            elif isinstance(o, Seq):
                for e, m in o.segs:
                    x = I.unpack(e, 2, n, st)
                    dict_put(d, x[0], x[1], m)
        elif isinstance(a, Top):
            d.rest = a if d.rest is None else val_join(d.rest, a)


def list_extend(I, ref, v, n, st):
    I.mutate(ref, n, st, "list extend")
    segs, tags = iterate(I, v, n, st)
    o = st.mut(ref.oid)
    grow(o, segs)
    o.order = None


def grow(o, segs):
    """append segments to a list, collapsing when it grows in a loop"""
    if len(o.segs) + len(segs) > 24:
        vals = [v for v, _ in o.segs] + [v for v, _ in segs]
        j = vals[0]
        for w in vals[1:]:
            j = val_join(j, w)
        o.segs = [(j, True)]
    else:
        o.segs = o.segs + list(segs)


# ---- isinstance -------------------------------------------------------------
def type_of(I, v, st):
    """set of type names the value certainly has, or None"""
    if isinstance(v, Sc):
        c = v.cell.const
        dt = v.cell.dt
        if c is not NOC and not isinstance(c, AbsStr):
            if c is None:
                return {"NoneType"}
            if dt == "npint":
                return {"numpy.integer", "numpy.int64", "numpy.generic", "numbers.Integral", "numbers.Number"}
            if isinstance(c, bool):
                return {"bool", "int", "numbers.Integral", "numbers.Number"}
            if isinstance(c, int):
                return {"int", "numbers.Integral", "numbers.Number", "numbers.Real"}
            if isinstance(c, float):
                return {"float", "numbers.Number", "numbers.Real"}
            if isinstance(c, str):
                return {"str", "Sequence", "Iterable", "Hashable"}
            return None
        return {"str": {"str", "Sequence", "Iterable"}, "bool": {"bool", "int"},
                "float": {"float", "numbers.Number", "numbers.Real"}, "pyint": {"int", "numbers.Integral", "numbers.Number", "numbers.Real"},
                "npint": {"numpy.integer", "numpy.int64", "numpy.generic", "numbers.Integral", "numbers.Number"}}.get(dt)
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, Frame):
            r = {"pandas.DataFrame", "NDFrame"}
            if o.cls:
                r |= set(I.mro(o.cls))
            return r
        if isinstance(o, Ser):
            return {"pandas.Series", "NDFrame"}
        if isinstance(o, Arr):
            return {"numpy.ndarray"}
        if isinstance(o, Idx):
            return {"pandas.Index"}
        if isinstance(o, Seq):
            if o.kind == "gen":
                return {"Iterable", "Iterator", "generator"}
            return {o.kind, "Iterable", "Collection", "Sized"} | ({"Sequence", "Reversible"} if o.kind in ("list", "tuple") else {"Set"}) | \
                ({"MutableSequence"} if o.kind == "list" else set())
        if isinstance(o, Dct):
            return {"dict", "Mapping", "MutableMapping", "Iterable", "Collection", "Sized"}
        if isinstance(o, Rng):
            return {"numpy.random.RandomState", "numpy.random.mtrand.RandomState"}
        if isinstance(o, Inst) and o.cls:
            return set(I.mro(o.cls))
        return None
    if isinstance(v, (FnV, MethV)):
        return {"function", "Callable"}
    return None


def norm_type(nm):
    for pre in ("builtins.", "collections.abc.", "typing."):
        if nm.startswith(pre):
            return nm[len(pre):]
    if nm in ("pandas.core.frame.DataFrame",):
        return "pandas.DataFrame"
    if nm in ("pandas.core.series.Series",):
        return "pandas.Series"
    return nm


def isinstance_(I, v, cls, st):
    """True / False / None"""
    if isinstance(cls, Ref):
        o = st.heap[cls.oid]
        if isinstance(o, Seq):
            rs = [isinstance_(I, v, c, st) for c, _ in o.segs]
            if True in rs:
                return True
            return None if None in rs else False
        return None
    if isinstance(v, Un):
        rs = {isinstance_(I, a, cls, st) for a in v.atoms}
        return rs.pop() if len(rs) == 1 else None
    ts = type_of(I, v, st)
    if ts is None:
        return None
    if isinstance(cls, ClsV):
        return cls.name in ts
    if isinstance(cls, LibV):
        nm = norm_type(cls.name)
        if nm in ts or "lib:" + cls.name in ts or nm == "object":
            return True
        known = {"str", "int", "float", "bool", "list", "tuple", "dict", "set", "complex", "bytes", "frozenset",
                 "numpy.ndarray", "pandas.DataFrame", "pandas.Series", "pandas.Index", "Sequence", "Mapping",
                 "numpy.random.RandomState", "numpy.random.mtrand.RandomState", "numpy.integer", "numpy.int64", "numpy.floating",
                 "numbers.Integral", "numbers.Number", "numbers.Real", "Iterable", "Callable", "numpy.random.Generator",
                 "MutableSequence", "MutableMapping", "numpy.generic", "numpy.number", "Set", "NoneType", "Collection", "Sized",
                 "numpy.float64", "numpy.bool_"}
        if nm in known:
            if nm == "Iterable" and any(t in ts for t in ("pandas.DataFrame", "pandas.Series", "numpy.ndarray", "pandas.Index")):
                return True
            if nm in ("numpy.number", "numpy.generic") and "numpy.integer" in ts:
                return True
            if nm in ("numpy.floating", "numpy.float64") and "float" in ts and constof(v) is NOC:
                return None
            if nm in ("Collection", "Sized", "Callable"):
                return None
            return False
    return None


# ---- formatting ---------------------------------------------------------------
def format_value(I, v, spec, st, conversion=-1):
    """result of format(v, spec) as a value"""
    tags = I.tags_of(v, st)
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], Opq) and st.heap[v.oid].typ == "path" and st.heap[v.oid].data.get("p"):
        return k(st.heap[v.oid].data["p"])
    if isinstance(v, Sc):
        c = v.cell.const
        if isinstance(c, AbsStr) and not spec:
            return Sc(Cell(tags, const=c, dt="str"))
        if c is not NOC and not isinstance(c, AbsStr) and spec is not None:
            try:
                return k(("{!r}" if conversion == 114 else "{:%s}" % spec if spec else "{}").format(c), tags)
            except Exception:
                return sc(tags, dt="str")
        if v.cell.term is not None and v.cell.dt != "str":
            return Sc(Cell(tags, const=AbsStr("num" + (":" + spec if spec else ""), v.cell.term), dt="str"))
    return Sc(Cell(tags, dt="str"))


_KEEP = object()


def str_concat(a, b):
    """concatenation of two (abstract) string constants, or NOC"""
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, AbsStr) and isinstance(b, str):
        return a.w(suffix=(a.suffix + b), dot=True if "." in b else a.dot)
    if isinstance(a, str) and isinstance(b, AbsStr):
        return b.w(prefix=a + b.prefix, dot=True if "." in a else b.dot)
    return NOC


def str_format(I, fmt, args, kwargs, n, st):
    """str.format with a constant format string"""
    import string
    tags = alltags(I, args, kwargs, st)
    try:
        parts = list(string.Formatter().parse(fmt))
    except ValueError:
        return sc(tags, dt="str")
    out = k("")
    auto = 0
    for lit, fld, spec, conv in parts:
        if lit:
            out = str_add(out, k(lit))
        if fld is None:
            continue
        if fld == "":
            if auto >= len(args):
                if "*" not in kwargs:
                    I.fail("bad-index", n, "format string needs more arguments than given", st=st)
                return sc(tags, dt="str")
            v = args[auto]
            auto += 1
        elif fld.isdigit():
            v = args[int(fld)] if int(fld) < len(args) else TOP
        else:
            base = fld.split(".")[0].split("[")[0]
            v = kwargs.get(base, TOP) if base == fld else TOP
        out = str_add(out, format_value(I, v, spec, st))
    return Sc(out.cell.tag(tags)) if isinstance(out, Sc) else out


def str_percent(I, fmt, arg, n, st):
    """fmt % arg with a constant format string"""
    import re
    tags = I.tags_of(arg, st)
    o = st.heap[arg.oid] if isinstance(arg, Ref) else None
    if isinstance(o, Seq) and o.kind == "tuple":
        if not o.exact():
            return sc(tags, dt="str")
        args = [v for v, _ in o.segs]
    elif isinstance(o, Dct) or not isinstance(arg, (Sc, Ref)):
        return sc(tags, dt="str")
    else:
        args = [arg]
    out, i = k(""), 0
    for lit, spec, conv in re.findall(r"([^%]+)|%([-#0 +]*[0-9]*(?:\.[0-9]+)?)([a-zA-Z%(])", fmt):
        if lit:
            out = str_add(out, k(lit))
        elif conv == "%":
            out = str_add(out, k("%"))
        elif conv == "(" or i >= len(args):
            if conv != "(":
                I.fail("bad-index", n, "format string needs more arguments than given", st=st)
            return sc(tags, dt="str")
        else:
            v = args[i]
            i += 1
            if conv in "sr" and not spec:
                x = format_value(I, v, "", st, 114 if conv == "r" else -1)
            elif conv in "dfgeFGE" and "-" not in spec and "#" not in spec:
                x = format_value(I, v, spec + conv, st)
            else:
                x = sc(I.tags_of(v, st), dt="str")
            out = str_add(out, x)
    return Sc(out.cell.tag(tags)) if isinstance(out, Sc) else out


def str_add(a, b):
    t = a.cell.tags | b.cell.tags
    ca, cb = a.cell.const, b.cell.const
    if ca is not NOC and cb is not NOC:
        c = str_concat(ca, cb)
        if c is not NOC:
            return Sc(Cell(t, const=c, dt="str"))
    if isinstance(ca, AbsStr) and ca.kind.lstrip("~").startswith("num"):
        return Sc(Cell(t, const=ca.then_any(), dt="str"))
    if isinstance(ca, str) and ca and cb is NOC and b.cell.dt == "str":
        return Sc(Cell(t, const=AbsStr("some", None, prefix=ca), dt="str"))
    if isinstance(ca, AbsStr) and ca.kind == "some" and cb is NOC and b.cell.dt == "str":
        return Sc(Cell(t, const=ca.w(suffix="", dot=None), dt="str"))
    if isinstance(cb, str) and len(cb) >= 1:
        return Sc(Cell(t, const=AbsStr("opq", None, suffix=cb), dt="str")) if ca is NOC and a.cell.dt == "str" else sc(t, dt="str")
    return sc(t, dt="str")


STRM = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "split", "title",
        "capitalize", "casefold", "find", "index", "count", "isdigit", "isalpha", "zfill", "ljust", "rjust",
        "removeprefix", "removesuffix", "partition", "rpartition", "swapcase", "isnumeric", "isidentifier", "rsplit", "center"}


def str_method(I, v, name, args, kwargs, n, st):
    c = constof(v)
    tags = I.tags_of(v, st) | alltags(I, args, kwargs, st)
    if name == "format":
        if isinstance(c, str):
            return str_format(I, c, args, kwargs, n, st)
        return sc(tags, dt="str")
    if name == "join" and args:
        segs, _ = iterate(I, args[0], n, st)
        if isinstance(c, str) and all(not m for _, m in segs) and all(isinstance(constof(x), str) for x, _ in segs):
            return k(c.join(constof(x) for x, _ in segs), tags)
        return sc(tags, dt="str")
    cs = []
    for a in args:
        x = constof(a)
        if x is NOC and isinstance(a, Ref):
            o = st.heap[a.oid]
            if isinstance(o, Seq) and o.exact() and all(constof(y) is not NOC for y, _ in o.segs):
                x = tuple(constof(y) for y, _ in o.segs)
        cs.append(x)
    kcs = {kk: constof(a) for kk, a in kwargs.items()}
    if isinstance(c, str) and name in STRM and all(x is not NOC and not isinstance(x, AbsStr) for x in cs) and all(x is not NOC for x in kcs.values()):
        try:
            r = getattr(c, name)(*cs, **kcs)
        except Exception:
            return sc(tags)
        if isinstance(r, (list, tuple)):
            return I.seq(st, [k(x, tags) for x in r], "list" if isinstance(r, list) else "tuple", n)
        return k(r, tags)
    if isinstance(c, AbsStr):
        if name == "endswith" and cs and isinstance(cs[0], str):
            if len(c.suffix) >= len(cs[0]):
                return k(c.suffix.endswith(cs[0]), tags)
            if c.kind.startswith("num") and not c.suffix and cs[0] and not (set(cs[0]) <= set("0123456789.")):
                return k(False, tags)
            if c.suffix and not cs[0].endswith(c.suffix):
                return k(False, tags)
        if name == "startswith" and cs and isinstance(cs[0], str):
            if len(c.prefix) >= len(cs[0]):
                return k(c.prefix.startswith(cs[0]), tags)
        if name in ("rstrip", "lstrip", "strip") and c.kind.startswith("num") and not c.suffix \
                and all(isinstance(x, str) and set(x) <= set("0. ") for x in cs):
            # trailing zeros of a decimal numeral: same number while at most the
            # fraction is stripped
            if name == "rstrip":
                fam = c.kind.split("|")[0]
                hist = c.kind.split("|")[1:]
                return Sc(Cell(tags, const=c.w(kind="|".join([fam] + hist + ["".join(cs) or "ws"])), dt="str"))
        if name in ("strip", "lower", "upper") and not cs and c.kind.startswith("num"):
            return Sc(Cell(tags, const=c, dt="str"))
        if name in ("startswith", "endswith"):
            return sc(tags, dt="bool")
    if name in ("startswith", "endswith", "isdigit", "isalpha"):
        return sc(tags, dt="bool")
    if name in ("split", "rsplit", "splitlines"):
        return I.new(st, Seq(kind="list", segs=[(sc(tags, dt="str"), True)]), n)
    if name in ("find", "index", "count"):
        return sc(tags, dt="num")
    return sc(tags, dt="str")


def str_getitem(I, v, key, n, st):
    tags = I.tags_of(v, st) | I.tags_of(key, st)
    c = constof(v)
    if isinstance(key, SliceV):
        lo, hi, step = (constof(x) for x in (key.lo, key.hi, key.step))
        if NOC not in (lo, hi, step) or not any(x is NOC for x in (lo, hi, step)):
            if isinstance(c, str):
                return k(c[slice(lo, hi, step)], tags)
            if isinstance(c, AbsStr) and isinstance(lo, int) and lo < 0 and hi is None and step is None and len(c.suffix) >= -lo:
                return k(c.suffix[lo:], tags)
    else:
        i = constof(key)
        if isinstance(c, (str, tuple, list)) and isinstance(i, int):
            if -len(c) <= i < len(c):
                return k(c[i], tags)
            I.fail("bad-index", n, "index %d out of range" % i, st=st)
        if isinstance(c, AbsStr) and isinstance(i, int) and i < 0 and len(c.suffix) >= -i:
            return k(c.suffix[i], tags)
    if v.cell.dt == "str":
        return sc(tags, dt="str")
    return Top(tags)


NUMATTR = {"item", "astype", "real", "imag", "size", "shape", "ndim", "is_integer", "mean", "sum", "max", "min", "round",
           "any", "all", "tolist", "dtype", "copy", "strip", "T", "values", "index", "name"}


def scalar_attr(I, v, name, n, st):
    c = v.cell
    if isinstance(c.const, RVC):
        if name not in I.api["classes"]["rv_frozen"]:
            I.fail("missing-attr", n, "a frozen distribution has no attribute '%s'" % name, attr=name, st=st)
        return MethV(v, name)
    if c.dt == "str" or isinstance(c.const, (str, AbsStr)):
        if name not in I.api["classes"]["str"]:
            I.fail("missing-attr", n, "str has no attribute '%s'" % name, attr=name, st=st)
        return MethV(v, name)
    if isinstance(c.const, bool) or isinstance(c.const, int) and c.dt == "num":
        return MethV(v, name)
    if c.lab or c.dt in ("num", "label", "float", "bool", "npint"):
        return MethV(v, name)
    return MethV(v, name) if c.dt else Top(c.tags)


def scalar_method(I, v, name, args, kwargs, n, st):
    tags = I.tags_of(v, st) | alltags(I, args, kwargs, st)
    c = v.cell
    if isinstance(c.const, RVC):
        return I.np.rv_method(I, v, name, args, kwargs, n, st)
    if c.dt == "str" or isinstance(c.const, (str, AbsStr)):
        return str_method(I, v, name, args, kwargs, n, st)
    if name in ("item", "copy", "squeeze", "get"):
        return v
    if name in ("astype",):
        return I.np.cast_scalar(I, v, args[0] if args else TOP, n, st)
    if name in ("sum", "max", "min", "mean", "ravel", "flatten", "reshape"):
        return v
    if name == "round":
        return Sc(I.np.rounded(I, c, n, st))
    if name in ("any", "all", "is_integer"):
        return sc(tags, dt="bool")
    if name == "tolist":
        return v
    if name in ("strftime", "isoformat"):
        return sc(tags, dt="str")
    if name in ("startswith", "endswith"):
        return sc(tags, dt="bool")
    return Top(tags)


# ---- container methods -----------------------------------------------------
LISTMUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"}
DICTMUT = {"update", "pop", "setdefault", "clear", "popitem"}


def seq_method(I, ref, name, args, kwargs, n, st):
    o = st.heap[ref.oid]
    if o.kind != "gen" and name not in I.api["classes"].get(o.kind, {}) and not name.startswith("__"):
        I.fail("missing-attr", n, "%s has no attribute '%s'" % (o.kind, name), attr=name, st=st)
    tags = alltags(I, args, kwargs, st)
    if o.kind == "list" and name in LISTMUT or o.kind == "set" and name in ("add", "update", "discard", "remove", "clear", "pop"):
        I.mutate(ref, n, st, "%s.%s" % (o.kind, name))
        o = st.mut(ref.oid)
        if name in ("append", "add") and args:
            if miss.TST[0]:
                for t in I.tags_of(args[0], st):
                    if str(t).startswith("rk:"):
                        I.event("listed", n, "appended %s" % t, what=t, facts=st.facts)
            ordr = o.order
            grow(o, [(args[0], False)])
            o.order = None
        elif name in ("extend", "update") and args:
            segs, _ = iterate(I, args[0], n, st)
            grow(o, segs)
            o.order = None
        elif name == "insert" and len(args) > 1:
            i = constof(args[0])
            if i == 0:
                o.segs = [(args[1], False)] + o.segs
            else:
                grow(o, [(args[1], False)])
            o.order = None
        elif name == "pop":
            i = constof(args[0]) if args else -1
            if o.exact() and isinstance(i, int) and -len(o.segs) <= i < len(o.segs):
                v, _ = o.segs[i]
                o.segs = [x for j, x in enumerate(o.segs) if j != i % len(o.segs)]
                return v
            return I.elem(ref, n, st)
        elif name == "clear":
            o.segs = []
        elif name == "reverse":
            o.segs = o.segs[::-1]
            o.order = I.order_tok(o.order, "rev") if o.order else None
        elif name == "sort":
            o.segs = sort_segs(o.segs, kwargs)
            o.order = I.order_tok(o.order, "sort", id(n)) if o.order else None
        elif name in ("remove", "discard"):
            c = constof(args[0]) if args else NOC
            if c is not NOC and o.exact():
                o.segs = [x for x in o.segs if constof(x[0]) != c]
        return NONE
    if name == "copy":
        return I.new(st, Seq(kind=o.kind, segs=list(o.segs), order=o.order), n)
    if name in ("index", "count"):
        if name == "index" and args and o.exact():
            c = constof(args[0])
            vals = [constof(v) for v, _ in o.segs]
            if c is not NOC and NOC not in vals and c in vals:
                return k(vals.index(c), tags)
        return sc(tags | I.tags_of(ref, st), lab="pos", dt="num")
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        segs = list(o.segs)
        for a in args:
            segs += iterate(I, a, n, st)[0]
        vals = [constof(v) for v, _ in segs]
        if all(x is not NOC for x in vals) and all(isinstance(a, Ref) and isinstance(st.heap[a.oid], Seq) for a in args):
            s0 = {constof(v) for v, _ in o.segs}
            for a in args:
                s0 = getattr(s0, name)({constof(v) for v, _ in st.heap[a.oid].segs})
            return I.new(st, Seq(kind="set", segs=[(k(x), False) for x in sorted(s0, key=repr)]), n)
        j = None
        for v, _ in segs:
            j = v if j is None else val_join(j, v)
        return I.new(st, Seq(kind="set", segs=[(j, True)] if j is not None else []), n)
    if name in ("issubset", "issuperset", "isdisjoint"):
        return sc(tags, dt="bool")
    if name in ("__len__",):
        return length(I, ref, n, st)
    return Top(tags | I.tags_of(ref, st))


def sort_segs(segs, kwargs):
    if all(not m for _, m in segs):
        cs = [constof(v) for v, _ in segs]
        if all(isinstance(c, (int, float)) for c in cs) or all(isinstance(c, str) for c in cs):
            if "key" not in kwargs:
                rv = constof(kwargs.get("reverse", FALSE)) is True
                idx = sorted(range(len(cs)), key=lambda i: cs[i], reverse=rv)
                return [segs[i] for i in idx]
    if len(segs) <= 1:
        return list(segs)
    return list(segs) if all(m for _, m in segs) else [(v, True) for v, _ in segs]


def dict_method(I, ref, name, args, kwargs, n, st):
    o = st.heap[ref.oid]
    if name not in I.api["classes"]["dict"] and not name.startswith("__"):
        I.fail("missing-attr", n, "dict has no attribute '%s'" % name, attr=name, st=st)
    tags = alltags(I, args, kwargs, st)
    if name in DICTMUT:
        I.mutate(ref, n, st, "dict." + name)
        o = st.mut(ref.oid)
        if name == "update":
            if args:
                dict_update(I, o, args[0], n, st)
            for kk, v in kwargs.items():
                if kk == "**":
                    o.rest = v if o.rest is None else val_join(o.rest, v)
                elif kk != "*":
                    o.items[kk] = v
            return NONE
        if name == "setdefault" and args:
            kk = dkey(args[0])
            d = args[1] if len(args) > 1 else NONE
            if kk is not None:
                if kk in o.items:
                    return o.items[kk]
                if o.rest is not None:
                    d = val_join(d, o.rest)
                o.items[kk] = d
                return d
            r = d if o.rest is None else val_join(o.rest, d)
            o.rest = r
            return r
        if name == "pop" and args:
            kk = dkey(args[0])
            d = args[1] if len(args) > 1 else None
            if kk is not None and kk in o.items:
                return o.items.pop(kk)
            if d is None and kk is not None and o.rest is None:
                I.fail("missing-key", n, "key %r is not in the dictionary" % (kk,), st=st)
            return d if d is not None and o.rest is None else (val_join(d, o.rest) if d is not None and o.rest is not None else o.rest or TOP)
        if name == "clear":
            o.items, o.rest = {}, None
        return NONE if name == "clear" else TOP
    if name in ("keys", "__iter__"):
        return I.new(st, Seq(kind="list", segs=iterate(I, ref, n, st)[0], order=I.order_tok("dict", ref.oid)), n)
    if name == "values":
        segs = [(v, False) for v in o.items.values()]
        if o.rest is not None:
            segs.append((o.rest, True))
        return I.new(st, Seq(kind="list", segs=segs), n)
    if name == "items":
        segs = [(I.seq(st, [k(kk), v], node=n), False) for kk, v in o.items.items()]
        if o.rest is not None:
            segs.append((I.seq(st, [sc(), o.rest], node=n), True))
        return I.new(st, Seq(kind="list", segs=segs), n)
    if name == "get" and args:
        kk = dkey(args[0])
        d = args[1] if len(args) > 1 else NONE
        if kk is not None or constof(args[0]) is None:
            if kk in o.items:
                return o.items[kk]
            return d if o.rest is None else val_join(d, o.rest)
        vals = list(o.items.values()) + ([o.rest] if o.rest is not None else []) + [d]
        return mkun(vals)
    if name == "copy":
        return I.new(st, Dct(items=dict(o.items), rest=o.rest), n)
    if name == "fromkeys":
        return TOP
    return Top(tags)


def length(I, v, n, st):
    if isinstance(v, Sc):
        c = v.cell.const
        if isinstance(c, (str, tuple, list)):
            return k(len(c), v.cell.tags)
        return sc(v.cell.tags, dt="pyint", dim=D0)
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        t = v.tags
        if isinstance(o, Seq) and o.exact() and o.kind != "set":
            return k(len(o.segs), t)
        if isinstance(o, Dct) and o.rest is None:
            return k(len(o.items), t)
        if isinstance(o, Arr) and o.exact is not None:
            return k(len(o.exact), t)
        if miss.AVG[0] and isinstance(o, Ser) and miss.known_rows(o.ix) not in (None, "?") and o.cell is not None and not T.is_num(o.cell.term):
            return Sc(Cell(t, dt="pyint", dim=D0, term=miss.count(T.atom("sel", o.cell.term, miss.known_rows(o.ix)))))
        if miss.AVG[0] and isinstance(o, Arr) and o.nd == 1:
            return Sc(Cell(t, dt="pyint", dim=D0, term=miss.count(o.cell.term)))
        if isinstance(o, (Frame, Ser)):
            return Sc(Cell(t, dt="pyint", dim=D0, term=size_term(o.ix)))
        if isinstance(o, Idx):
            return Sc(Cell(t, dt="pyint", dim=D0, term=size_term(o.ix)))
        if isinstance(o, (Seq, Arr)) and o.order is not None and (isinstance(o, Arr) or len(o.segs) == 1):
            return Sc(Cell(t | I.tags_of(v, st), dt="pyint", dim=D0, term=T.atom("len", o.order)))
        return Sc(Cell(t | I.tags_of(v, st), dt="pyint", dim=D0))
    return sc(I.tags_of(v, st), dt="pyint", dim=D0)


def as_cell_(a):
    return a.cell if isinstance(a, Sc) else Cell()


def size_term(ix):
    if miss.FORM[0]:
        c = ix.cells[0] if len(ix.cells) == 1 and not ix.special else None
        return T.atom("n") if c is not None and c.rep in (None, "ge1") and (c.lab in ("O", "D") or c.lab == "pos" and "rows:n" in c.tags) else None
    if len(ix.cells) == 1 and ix.cells[0] is not None and ix.cells[0].lab in ("O", "D") and not ix.special:
        return T.atom("n" + ix.cells[0].lab)
    return None


# ---- builtin functions -----------------------------------------------------
def builtin(I, name, args, kwargs, n, st):
    tags = alltags(I, args, kwargs, st)
    a0 = args[0] if args else None
    if name == "len" and args:
        return length(I, a0, n, st) if not isinstance(a0, Un) else mkun([length(I, a, n, st) for a in a0.atoms])
    if name == "isinstance" and len(args) == 2:
        r = isinstance_(I, a0, args[1], st)
        return Sc(Cell(I.tags_of(a0, st) if r is None else EMPTY, const=NOC if r is None else r, dt="bool"))
    if name == "issubclass":
        return sc(dt="bool")
    if name in ("list", "tuple", "set", "frozenset"):
        kind = "set" if name == "frozenset" else name
        if not args:
            return I.new(st, Seq(kind=kind), n)
        segs, _ = iterate(I, a0, n, st)
        o = I.order_of(a0, st)
        if kind == "set":
            seen, s2 = [], []
            for v, m in segs:
                if (v, m) not in s2:
                    s2.append((v, m))
            segs = [(miss.loose(v), m) for v, m in s2] if miss.FORM[0] else s2
            o = I.order_tok(o, "set") if o else None
        return I.new(st, Seq(kind=kind, segs=list(segs), order=o), n)
    if name == "dict":
        d = Dct()
        if args:
            dict_update(I, d, a0, n, st)
        for kk, v in kwargs.items():
            if kk == "**":
                d.rest = v
            elif kk != "*":
                d.items[kk] = v
        return I.new(st, d, n)
    if name == "range":
        cs = [constof(a) for a in args]
        if all(isinstance(c, int) for c in cs) and args:
            r = range(*cs)
            if len(r) <= 24:
                return I.new(st, Seq(kind="list", segs=[(k(x, tags), False) for x in r]), n)
        for a in args:
            if isinstance(a, Sc) and a.cell.lab in ("O", "D"):
                I.event("label-pos", n, "an %s label is used as a count or position" % lab_name(a.cell.lab))
            elif isinstance(a, Sc) and a.cell.lab in ("Ostep", "Dstep") and len(args) == 1:
                I.event("label-pos", n, "a difference of %s labels is used as a count" % lab_name(a.cell.lab[0]))
        pc = Cell(tags, lab="pos", dt="pyint", dim=D0)
        if len(cs) >= 2 and isinstance(cs[0], int) and cs[0] >= 1 and (len(cs) == 2 or isinstance(cs[2], int) and cs[2] > 0):
            pc = pc.w(rep="ge1" if not miss.FORM[0] or cs[0] == 1 and len(cs) == 2 else None)
        ordr = None
        if len(args) == 1 and isinstance(a0, Sc):
            t = T.single(a0.cell.term)
            if t and t[0] == "len":
                ordr = t[1]
                pc = pc.w(term=T.atom("posof", ordr, 0))
        if miss.FORM[0]:
            pc = miss.ranged(pc, [as_cell_(a) for a in args])
        return I.new(st, Seq(kind="list", segs=[(Sc(pc), True)], order=ordr), n)
    if name == "enumerate" and args:
        segs, _ = iterate(I, a0, n, st)
        start = constof(args[1]) if len(args) > 1 else constof(kwargs.get("start", k(0)))
        out = []
        exact = all(not m for _, m in segs)
        ordr = I.order_of(a0, st)
        for i, (v, m) in enumerate(segs):
            if exact and isinstance(start, int):
                iv = k(i + start)
            else:
                iv = Sc(Cell(lab="pos", dt="pyint", dim=D0,
                             term=T.atom("posof", ordr, i) if ordr is not None and start == 0 else None))
                if miss.ON[0] and not (miss.AVG[0] and iv.cell.term is not None and len(segs) > 1):
                    iv = Sc(iv.cell.w(term=T.atom("enum", start) if isinstance(start, int) else None))
            out.append((I.seq(st, [iv, v], node=n), m))
        return I.new(st, Seq(kind="list", segs=out, order=I.order_of(a0, st)), n)
    if name == "zip":
        return zip_(I, args, n, st)
    if name == "reversed" and args:
        segs, _ = iterate(I, a0, n, st)
        if miss.FORM[0]:
            segs = [(miss.loose(v), m) for v, m in segs]
        o = I.order_of(a0, st)
        return I.new(st, Seq(kind="list", segs=segs[::-1], order=I.order_tok(o, "rev") if o else None), n)
    if name == "sorted" and args:
        segs, _ = iterate(I, a0, n, st)
        o = I.order_of(a0, st)
        if miss.FORM[0] and kwargs:
            segs = [(miss.loose(v), m) for v, m in segs]
        if "key" in kwargs and segs:
            try:
                I.call(kwargs["key"], [segs[0][0]], {}, n, st)
            except Dead_():
                pass
        return I.new(st, Seq(kind="list", segs=sort_segs(segs, kwargs), order=I.order_tok(o, "sort") if o and "key" not in kwargs and "reverse" not in kwargs else None), n)
    if name in ("min", "max", "sum"):
        return I.np.reduce_builtin(I, name, args, kwargs, n, st)
    if name in ("any", "all") and args:
        segs, _ = iterate(I, a0, n, st)
        ts = [I.truth(v, st) for v, _ in segs]
        tg = EMPTY
        for v, _ in segs:
            tg |= I.tags_of(v, st)
        if name == "any":
            r = True if any(t is True for t, (_, m) in zip(ts, segs)) else (False if all(t is False for t in ts) else NOC)
        else:
            r = False if any(t is False for t in ts) else (True if all(t is True for t in ts) else NOC)
        return Sc(Cell(tg, const=r, dt="bool"))
    if name == "map" and len(args) >= 2:
        if len(args) == 2:
            segs, _ = iterate(I, args[1], n, st)
            out = [(I.call(a0, [v], {}, n, st), m) for v, m in segs]
            return I.new(st, Seq(kind="gen", segs=out, order=I.order_of(args[1], st)), n)
        z = zip_(I, args[1:], n, st)
        out = []
        for v, m in iterate(I, z, n, st)[0]:
            xs = [x for x, _ in iterate(I, v, n, st)[0]]
            out.append((I.call(a0, xs, {}, n, st), m))
        return I.new(st, Seq(kind="gen", segs=out), n)
    if name == "filter" and len(args) == 2:
        segs, _ = iterate(I, args[1], n, st)
        out = []
        for v, m in segs:
            t = I.truth(v if a0 == NONE else I.call(a0, [v], {}, n, st), st)
            if t is not False:
                out.append((v, m or t is None))
        return I.new(st, Seq(kind="gen", segs=out), n)
    if name in ("int", "float", "str", "bool", "abs", "round", "pow", "divmod", "complex"):
        return I.np.scalar_builtin(I, name, args, kwargs, n, st)
    if name == "getattr" and len(args) >= 2:
        c = constof(args[1])
        if isinstance(c, str):
            if len(args) > 2:
                I.tries.append({"AttributeError"})
                I.excs.append([])
                try:
                    return I.getattr(a0, c, n, st)
                except Dead_():
                    return args[2]
                finally:
                    I.excs.pop()
                    I.tries.pop()
            return I.getattr(a0, c, n, st)
        return Top(tags)
    if name == "hasattr" and len(args) == 2:
        c = constof(args[1])
        if isinstance(c, str) and isinstance(a0, Ref):
            I.tries.append({"AttributeError"})
            I.excs.append([])
            I.quiet += 1
            s = st.fork()
            try:
                r = I.getattr(a0, c, n, s)
                return TRUE if not isinstance(r, Top) else sc(dt="bool")
            except Dead_():
                return FALSE
            finally:
                I.quiet -= 1
                I.excs.pop()
                I.tries.pop()
        if isinstance(c, str) and isinstance(a0, Sc) and c == "__len__" and a0.cell.const is not NOC:
            return k(hasattr(a0.cell.const, c))
        return sc(dt="bool")
    if name == "setattr" and len(args) == 3:
        c = constof(args[1])
        if isinstance(c, str):
            I.setattr(a0, c, args[2], n, st)
        elif isinstance(a0, Ref):
            o = st.heap[a0.oid]
            if hasattr(o, "attrs"):
                if o.owner:
                    I.event("attr-store", n, "rebinds an attribute", attr="?", owner=o.owner, private=False, old=None, new=args[2])
                m = st.mut(a0.oid)
                m.attrs["%open"] = TRUE
        return NONE
    if name == "delattr":
        return NONE
    if name == "type" and len(args) == 1:
        if isinstance(a0, Ref):
            c = getattr(st.heap[a0.oid], "cls", None)
            if c in I.classes:
                return ClsV(c)
            o = st.heap[a0.oid]
            if isinstance(o, Frame):
                return LibV("pandas.DataFrame")
            if isinstance(o, Ser):
                return LibV("pandas.Series")
            if isinstance(o, Seq) and o.kind != "gen":
                return LibV("builtins." + o.kind)
            if isinstance(o, Dct):
                return LibV("builtins.dict")
        if isinstance(a0, Sc) and a0.cell.const is not NOC and not isinstance(a0.cell.const, AbsStr):
            return LibV("builtins." + type(a0.cell.const).__name__)
        return TOP
    if name == "callable":
        return k(True) if isinstance(a0, (FnV, MethV, PartV)) else (k(False) if isinstance(a0, Sc) and constof(a0) is not NOC else sc(dt="bool"))
    if name in ("print", "repr", "id", "hash", "input", "ascii", "vars", "dir", "globals", "locals", "open", "exec", "eval", "__import__"):
        if name in ("open", "exec", "eval", "__import__"):
            I.event("effect", n, "calls %s()" % name, name="builtins." + name, args=args)
        if name == "vars" and isinstance(a0, Ref) and isinstance(st.heap[a0.oid], Inst):
            return I.new(st, Dct(items=dict(st.heap[a0.oid].attrs)), n)
        if name == "repr":
            return sc(tags, dt="str")
        return NONE if name == "print" else Top(tags)
    if name == "iter" and args:
        return a0
    if name == "next" and args:
        segs, _ = iterate(I, a0, n, st)
        if segs and not segs[0][1]:
            v = segs[0][0]
            if isinstance(a0, Ref) and isinstance(st.heap[a0.oid], Seq) and st.heap[a0.oid].kind == "gen":
                st.mut(a0.oid).segs = segs[1:]
            return v
        if not segs:
            return args[1] if len(args) > 1 else TOP
        v = I.elem(a0, n, st)
        return val_join(v, args[1]) if len(args) > 1 else v
    if name == "slice":
        x = list(args) + [NONE] * (3 - len(args))
        return SliceV(*x[:3]) if len(args) > 1 else SliceV(NONE, x[0], NONE)
    if name == "property":
        return I.new(st, Opq(typ="property", data={"fget": a0, "fset": args[1] if len(args) > 1 else None}), n)
    if name in ("chr", "bin", "hex", "format"):
        if name == "format" and args:
            spec = constof(args[1]) if len(args) > 1 else ""
            return format_value(I, a0, spec if isinstance(spec, str) else None, st)
        return sc(tags, dt="str")
    if name == "super":
        return TOP
    if name == "object":
        return TOP
    return Top(tags)


def Dead_():
    from .interp import Dead
    return Dead


def lab_name(lab):
    return {"O": "origin", "D": "development"}.get(lab, lab)


def zip_(I, args, n, st):
    ss = [iterate(I, a, n, st)[0] for a in args]
    if miss.ON[0] and len(args) > 1:
        ss = [[(miss.zipped(v), m) for v, m in s] for s in ss]
    orders = [I.order_of(a, st) for a in args]
    if not ss:
        return I.new(st, Seq(kind="gen"), n)
    ex = [all(not m for _, m in s) for s in ss]
    out = []
    if all(ex):
        m = min(len(s) for s in ss)
        for i in range(m):
            out.append((I.seq(st, [s[i][0] for s in ss], node=n), False))
    elif len({len(s) for s in ss}) == 1 and len({tuple(m for _, m in s) for s in ss}) == 1:
        for i in range(len(ss[0])):
            out.append((I.seq(st, [s[i][0] for s in ss], node=n), ss[0][i][1]))
    elif all(len(s) == 1 for s, e in zip(ss, ex) if not e):
        # one unknown-length operand: the exact ones are walked
        e = [s for s, x in zip(ss, ex) if x]
        j = []
        for s in ss:
            v = s[0][0] if s else TOP
            for w, _ in s[1:]:
                v = val_join(v, w)
            j.append(v)
        if e and min(len(s) for s in e) <= 12:
            m = min(len(s) for s in e)
            for i in range(m):
                out.append((I.seq(st, [(s[i][0] if x else j[q]) for q, (s, x) in enumerate(zip(ss, ex))], node=n), True))
        else:
            out.append((I.seq(st, j, node=n), True))
    else:
        j = []
        for s in ss:
            v = s[0][0] if s else TOP
            for w, _ in s[1:]:
                v = val_join(v, w)
            j.append(v)
        out.append((I.seq(st, j, node=n), True))
    o = orders[0] if orders and all(x == orders[0] for x in orders) else None
    return I.new(st, Seq(kind="gen", segs=out, order=o), n)


def product(I, args, kwargs, n, st):
    rep = constof(kwargs.get("repeat", k(1)))
    ss = [iterate(I, a, n, st)[0] for a in args] * (rep if isinstance(rep, int) else 1)
    out = []
    for combo in _it.product(*ss):
        out.append((I.seq(st, [v for v, _ in combo], node=n), any(m for _, m in combo)))
        if len(out) > 60:
            break
    return I.new(st, Seq(kind="gen", segs=out, order=I.order_tok("product", id(n))), n)
