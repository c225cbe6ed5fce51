"""Abstract domain: cells (facets of scalar data), values and heap objects."""
from dataclasses import dataclass, field, replace as _replace
from fractions import Fraction as F
from . import terms as T

NOC = type("NOC", (), {"__repr__": lambda s: "·", "__bool__": lambda s: False})()
EMPTY = frozenset()

# ---- dimensions (powers of the currency unit) ---------------------------
Z = ("Z",)          # NaN / 0 / inf: fits every dimension
LIT = ("L",)        # nonzero literal number


def P(a, b=0):
    return ("P", F(a), F(b))


D0, D1 = P(0), P(1)


def LOG(a, b=0):
    return ("LOG", F(a), F(b))


def dim_known(d):
    return d is not None and d != Z


def dim_norm(d):
    return D0 if d == LIT else d


def dim_join(a, b):
    if a == b:
        return a
    if a == Z:
        return b
    if b == Z:
        return a
    if a == LIT and b is not None:      # selection of a literal: tolerated
        return b
    if b == LIT and a is not None:
        return a
    return None


def dim_show(d):
    if d is None:
        return "unknown"
    if d[0] == "P":
        e = "%s" % d[1] + ("%+g*alpha" % float(d[2]) if d[2] else "")
        return "dimensionless" if (d[1], d[2]) == (0, 0) else ("amount" if (d[1], d[2]) == (1, 0) else "amount^(%s)" % e)
    if d[0] == "LOG":
        return "log(amount)"
    return {"Z": "zero", "L": "literal"}[d[0]]


# ---- cells --------------------------------------------------------------
class Cell:
    """lab: O/D origin/dev label, Ostep/Dstep label difference, pos position,
    sim simulation id.  rep: I/C incremental/cumulative (plus intermediate
    forms).  const: python value when known.  dt: coarse type name."""
    __slots__ = ("tags", "dim", "lab", "rep", "term", "const", "dt")

    def __init__(self, tags=EMPTY, dim=None, lab=None, rep=None, term=None, const=NOC, dt=None):
        self.tags, self.dim, self.lab, self.rep, self.term, self.const, self.dt = tags, dim, lab, rep, term, const, dt

    def key(self):
        c = self.const
        return (self.tags, self.dim, self.lab, self.rep, self.term,
                ("nan",) if isinstance(c, float) and c != c else (type(c).__name__, c), self.dt)

    def __eq__(self, o):
        return isinstance(o, Cell) and self.key() == o.key()

    def __hash__(self):
        return hash((self.tags, self.dim, self.lab, self.rep, self.dt))

    def __repr__(self):
        b = []
        if self.const is not NOC:
            b.append(repr(self.const))
        for n in ("dt", "lab", "rep"):
            if getattr(self, n):
                b.append("%s=%s" % (n, getattr(self, n)))
        if self.dim is not None:
            b.append(dim_show(self.dim))
        if self.term is not None:
            b.append(T.show(self.term))
        if self.tags:
            b.append("{%s}" % ",".join(sorted(map(str, self.tags))))
        return "Cell(%s)" % "; ".join(b)

    def w(self, **k):
        c = Cell(self.tags, self.dim, self.lab, self.rep, self.term, self.const, self.dt)
        for n, v in k.items():
            setattr(c, n, v)
        return c

    def tag(self, tags):
        return self if not tags or tags <= self.tags else self.w(tags=self.tags | frozenset(tags))


UNK = Cell()


@dataclass(frozen=True)
class RVC:
    """a frozen probability distribution held as a scalar"""
    dist: str
    loc: object = None
    scale: object = None
    shape: object = None
    dim: object = None

    def join(self, o):
        if not isinstance(o, RVC) or o.dist != self.dist:
            return NOC
        j = lambda a, b: a if a == b else cell_join(a, b) if a is not None and b is not None else None
        return RVC(self.dist, j(self.loc, o.loc), j(self.scale, o.scale), j(self.shape, o.shape), dim_join(self.dim, o.dim))

    def term(self):
        ts = []
        for c in (self.loc, self.scale, self.shape):
            if c is None:
                ts.append(None)
            elif c.term is None:
                return None
            else:
                ts.append(c.term)
        return T.atom("rv", self.dist, ts[0] if ts[0] is not None else (), ts[1] if ts[1] is not None else T.ONE, ts[2] if ts[2] is not None else ())


def const_cell(v, tags=EMPTY):
    if isinstance(v, bool) or v is None:
        return Cell(tags, const=v, dt="bool" if v is not None else "none", term=None)
    if isinstance(v, (int, float)):
        if v == 0 or v != v or v in (float("inf"), float("-inf")):
            return Cell(tags, dim=Z, const=v, dt="num", rep="any",
                        term=() if v == 0 else None)
        return Cell(tags, dim=LIT, const=v, dt="num", term=T.const(v))
    if isinstance(v, (str, AbsStr)):
        return Cell(tags, const=v, dt="str")
    return Cell(tags, const=v)


def cell_join(a, b, extra=EMPTY):
    if a is None:
        return b if b is None else b.tag(extra)
    if b is None:
        return a.tag(extra)
    if a == b:
        return a
    if a.rep == b.rep:
        rep = a.rep
    elif a.rep == "any":
        rep = b.rep
    elif b.rep == "any":
        rep = a.rep
    elif a.dim == LIT and a.const is not NOC:
        rep = b.rep
    elif b.dim == LIT and b.const is not NOC:
        rep = a.rep
    else:
        rep = None
    return Cell(a.tags | b.tags | extra, dim_join(a.dim, b.dim),
                a.lab if a.lab == b.lab else None, rep,
                a.term if a.term == b.term else None,
                a.const if type(a.const) is type(b.const) and a.const == b.const else
                a.const.join(b.const) if isinstance(a.const, RVC) else
                a.const.join(b.const) if isinstance(a.const, AbsStr) and isinstance(b.const, AbsStr) else NOC,
                a.dt if a.dt == b.dt else None)


class AbsStr:
    """An unknown string with known structure: kind, source term, known suffix."""
    __slots__ = ("kind", "src", "suffix", "dot", "prefix")

    def __init__(self, kind, src=None, suffix="", dot=None, prefix=""):
        self.kind, self.src, self.suffix, self.dot, self.prefix = kind, src, suffix, dot, prefix

    def key(self):
        return (self.kind, self.src, self.suffix, self.dot, self.prefix)

    def __eq__(self, o):
        return isinstance(o, AbsStr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "<%s%s%s>" % (self.prefix, self.kind, ("…" + self.suffix) if self.suffix else "")

    def then_any(self):
        """the same number followed by some text"""
        return AbsStr("~" + self.kind.lstrip("~"), self.src, prefix=self.prefix)

    def join(self, o):
        if self.kind.lstrip("~") == o.kind.lstrip("~") and self.kind.lstrip("~").startswith("num") and self.src == o.src and self.prefix == o.prefix:
            return self.then_any()
        return NOC

    def w(self, **k):
        r = AbsStr(*self.key())
        for n, v in k.items():
            setattr(r, n, v)
        return r


# ---- values -------------------------------------------------------------
@dataclass(frozen=True)
class Sc:
    cell: Cell


@dataclass(frozen=True)
class Ref:
    oid: int
    tags: frozenset = EMPTY


@dataclass(frozen=True)
class Top:
    tags: frozenset = EMPTY


@dataclass(frozen=True)
class Unb:
    pass


@dataclass(frozen=True)
class LibV:
    name: str


@dataclass(frozen=True)
class ModV:
    name: str


@dataclass(frozen=True)
class ClsV:
    name: str           # qualified user class name


class FnV:
    """A user function, possibly bound, possibly a closure."""
    __slots__ = ("info", "bound", "cells", "owner")

    def __init__(self, info, bound=None, cells=None, owner=None):
        self.info, self.bound, self.cells, self.owner = info, bound, cells, owner

    def __eq__(self, o):
        return isinstance(o, FnV) and self.info is o.info and self.bound == o.bound

    def __hash__(self):
        return hash((id(self.info), self.bound))


@dataclass(frozen=True)
class MethV:
    """A library method bound to an object value."""
    obj: object
    name: str
    via: str = ""       # accessor: loc/iloc/at/iat/str/dt


@dataclass(frozen=True)
class PartV:
    fn: object
    args: tuple
    kwargs: tuple


@dataclass(frozen=True)
class SliceV:
    lo: object
    hi: object
    step: object


@dataclass(frozen=True)
class SuperV:
    obj: object
    cls: str


@dataclass(frozen=True)
class Un:
    atoms: tuple


NONE = Sc(const_cell(None))
TRUE = Sc(const_cell(True))
FALSE = Sc(const_cell(False))
TOP = Top(frozenset(["?"]))
UNB = Unb()


def k(v, tags=EMPTY):
    return Sc(const_cell(v, tags))


def atoms_of(v):
    return v.atoms if isinstance(v, Un) else (v,)


def mkun(vals):
    out = []
    for v in vals:
        for a in atoms_of(v):
            if a not in out:
                out.append(a)
    scs = [a for a in out if isinstance(a, Sc) and a != NONE]
    if len(scs) > 1:
        c = scs[0].cell
        for s in scs[1:]:
            c = cell_join(c, s.cell)
        out = [a for a in out if not (isinstance(a, Sc) and a != NONE)] + [Sc(c)]
    tops = [a for a in out if isinstance(a, Top)]
    if tops:
        t = EMPTY
        for x in tops:
            t |= x.tags
        out = [a for a in out if not isinstance(a, Top)] + [Top(t)]
    if len(out) == 1:
        return out[0]
    if len(out) > 8:
        return Top(frozenset().union(*[getattr(a, "tags", EMPTY) for a in out]))
    return Un(tuple(out))


def val_join(a, b, extra=EMPTY):
    if a == b:
        return a
    if isinstance(a, Sc) and isinstance(b, Sc) and a != NONE and b != NONE:
        return Sc(cell_join(a.cell, b.cell, extra))
    r = mkun([tag_ctl(x, extra) for x in (a, b)])
    return r


def tag_ctl(v, tags):
    """control-dependence tags on a value (without touching the heap)"""
    if not tags:
        return v
    if isinstance(v, Un):
        return Un(tuple(tag_ctl(x, tags) for x in v.atoms))
    if isinstance(v, Sc):
        return v if v == NONE else Sc(v.cell.tag(tags))
    if isinstance(v, Ref):
        return Ref(v.oid, v.tags | tags)
    if isinstance(v, Top):
        return Top(v.tags | tags)
    return v


# ---- heap objects -------------------------------------------------------
@dataclass(frozen=True)
class Ix:
    """axis: level names, level cells, labels with their own row"""
    names: tuple = (None,)
    cells: tuple = (Cell(lab="pos", dt="num"),)
    special: tuple = ()

    def w(self, **kw):
        return _replace(self, **kw)


RANGE = Ix()


@dataclass
class Col:
    cell: Cell
    special: dict = field(default_factory=dict)
    maybe: bool = False
    segs: tuple = None          # members by position, when built from a list that follows some axis

    def all(self):
        c = self.cell
        for s in self.special.values():
            c = cell_join(c, s)
        return c if c is not None else UNK

    def map(self, f):
        return Col(f(self.cell) if self.cell is not None else None,
                   {k_: f(v) for k_, v in self.special.items()}, self.maybe)


def col_join(a, b, extra=EMPTY):
    if a is None or b is None:
        c = a or b
        return Col(c.cell.tag(extra) if c.cell is not None else None, dict(c.special), True)
    if a == b:
        return a
    sp = {}
    for key in list(a.special) + [x for x in b.special if x not in a.special]:
        x = a.special.get(key, a.cell)
        y = b.special.get(key, b.cell)
        sp[key] = cell_join(x, y, extra)
    return Col(cell_join(a.cell, b.cell, extra), sp, a.maybe or b.maybe)


SIMHOOK = [None]                # told of every value that becomes a simulation identifier


class ColMap(dict):
    """columns of a frame; the published simulation identifier is recognised
    by its name"""

    def __init__(self, d=()):
        dict.__init__(self, d)
        if "sim" in self:
            self["sim"] = self["sim"]

    def __setitem__(self, key, col):
        if key == "sim" and isinstance(col, Col) and col.cell is not None and col.cell.lab in (None, "pos"):
            if SIMHOOK[0] is not None:
                SIMHOOK[0](col.cell)
            col = Col(col.cell.w(lab="sim", term=None), dict(col.special), col.maybe)
        dict.__setitem__(self, key, col)

    def copy(self):
        return ColMap(self)


class Obj:
    fields = ()

    def __init__(self, **kw):
        self.owner = kw.pop("owner", EMPTY)
        self.base = kw.pop("base", None)
        self.site = kw.pop("site", None)
        self.st = None
        for f, d in self.fields:
            v = kw.pop(f, None)
            setattr(self, f, v if v is not None else (d() if callable(d) else d))
        assert not kw, kw

    def clone(self):
        o = object.__new__(type(self))
        o.__dict__.update(self.__dict__)
        for f, d in self.fields:
            v = getattr(self, f)
            if isinstance(v, (dict, list)):
                setattr(o, f, v.copy())
        return o

    def same(self, o):
        return type(self) is type(o) and all(getattr(self, f) == getattr(o, f) for f, _ in self.fields) \
            and self.owner == o.owner

    def cells(self):
        return ()

    def tagset(self):
        t = EMPTY
        for c in self.cells():
            if c is not None:
                t |= c.tags
        return t


class Frame(Obj):
    # rest: class of all label-named columns; ro: {"ord","dup"} record-order taint
    fields = (("cols", dict), ("rest", None), ("restlab", None), ("colsname", None), ("ix", RANGE),
              ("cls", None), ("attrs", dict), ("open", False), ("multi", False), ("ro", EMPTY),
              ("sorted", None), ("first", None), ("cbase", 0), ("cut", False))

    def __setattr__(self, a, v):
        if a == "cols" and type(v) is not ColMap:
            v = ColMap(v)
        object.__setattr__(self, a, v)

    def get_open(self):
        # a column under an unknown name may be any column
        return self.__dict__["_open"] or NOC in self.cols

    def set_open(self, v):
        self.__dict__["_open"] = v

    open = property(get_open, set_open)

    def cells(self):
        for c in self.cols.values():
            if c.cell is not None:
                yield c.cell
            yield from c.special.values()
        if self.rest is not None:
            if self.rest.cell is not None:
                yield self.rest.cell
            yield from self.rest.special.values()


class Ser(Obj):
    fields = (("cell", None), ("special", dict), ("ix", RANGE), ("name", NOC), ("ro", EMPTY), ("frame", None))

    def cells(self):
        if self.cell is not None:
            yield self.cell
        yield from self.special.values()

    def all(self):
        c = None
        for x in self.cells():
            c = x if c is None else cell_join(c, x)
        return c if c is not None else UNK


class Arr(Obj):
    fields = (("cell", UNK), ("exact", None), ("order", None), ("ro", EMPTY), ("nd", 1), ("special", dict), ("ix", None), ("lay", None))

    def cells(self):
        yield self.cell
        yield from (self.exact or ())

    def all(self):
        return self.cell


class Idx(Obj):
    fields = (("ix", RANGE), ("of", None), ("axis", 0))

    def cells(self):
        return self.ix.cells


class Seq(Obj):
    # segs: list of (value, multi)
    fields = (("kind", "list"), ("segs", list), ("order", None))

    def exact(self):
        return all(not m for _, m in self.segs)


class Dct(Obj):
    fields = (("items", dict), ("rest", None))


class Grp(Obj):
    fields = (("src", None), ("keys", tuple), ("as_index", True), ("sel", None), ("labs", EMPTY), ("level", False), ("sort", True))


class Inst(Obj):
    fields = (("cls", None), ("attrs", dict))


class Rng(Obj):
    fields = (("src", None), ("cell", UNK))

    def cells(self):
        yield self.cell


class Opq(Obj):
    """typed opaque library object (rv, figure, axes, grid, ...)"""
    fields = (("typ", "object"), ("cell", UNK), ("data", dict))

    def cells(self):
        yield self.cell


_ids = [0]


def new_state_id():
    _ids[0] += 1
    return _ids[0]


class State:
    __slots__ = ("env", "heap", "sid", "pc", "facts")

    def __init__(self, env=None, heap=None, pc=EMPTY, facts=EMPTY):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.sid = new_state_id()
        self.pc = pc
        self.facts = facts

    def fork(self):
        s = State(dict(self.env), dict(self.heap), self.pc, self.facts)
        self.sid = new_state_id()
        return s

    def become(self, o):
        self.env, self.heap, self.pc, self.facts = o.env, o.heap, o.pc, o.facts
        self.sid = new_state_id()

    def mut(self, oid):
        o = self.heap[oid]
        if o.st != self.sid:
            o = o.clone()
            o.st = self.sid
            self.heap[oid] = o
        return o

    def __getitem__(self, oid):
        return self.heap[oid]


def dict_join(a, b, j):
    out = {}
    for key in a:
        out[key] = j(a[key], b[key]) if key in b else j(a[key], None)
    for key in b:
        if key not in a:
            out[key] = j(None, b[key])
    return out


def _vj(extra):
    def f(x, y):
        if x is None:
            return val_join(y, UNB, extra)
        if y is None:
            return val_join(x, UNB, extra)
        return val_join(x, y, extra)
    return f


def ix_join(a, b):
    if a == b or b is None:
        return a
    if a is None:
        return b
    if len(a.cells) != len(b.cells):
        return Ix((NOC,), (UNK,), ())
    return Ix(tuple(x if x == y else NOC for x, y in zip(a.names, b.names)),
              tuple(cell_join(x, y) for x, y in zip(a.cells, b.cells)),
              tuple(list(a.special) + [s for s in b.special if s not in a.special]))


def seq_join(a, b, extra=EMPTY):
    if a.segs == b.segs:
        return list(a.segs)
    if len(a.segs) == len(b.segs) and all(m == n for (_, m), (_, n) in zip(a.segs, b.segs)):
        return [(val_join(v, w, extra), m) for (v, m), (w, _) in zip(a.segs, b.segs)]
    vals = [v for v, _ in a.segs] + [v for v, _ in b.segs]
    if not vals:
        return []
    # common prefix kept, rest merged
    v = vals[0]
    for w in vals[1:]:
        v = val_join(v, w, extra)
    return [(tag_ctl(v, extra), True)]


def obj_join(a, b, extra=EMPTY):
    if a is b or a.same(b):
        return a
    if type(a) is not type(b):
        return Opq(typ="object", cell=Cell(a.tagset() | b.tagset() | extra), owner=a.owner | b.owner)
    o = a.clone()
    o.st = None
    o.owner = a.owner | b.owner
    if a.base != b.base:
        o.base = a.base or b.base
    if isinstance(a, Frame):
        o.cols = {}
        for key in list(a.cols) + [x for x in b.cols if x not in a.cols]:
            o.cols[key] = col_join(a.cols.get(key), b.cols.get(key), extra)
        o.rest = a.rest if a.rest == b.rest else col_join(a.rest, b.rest, extra)
        if o.rest is not None:
            o.rest.maybe = False
        o.restlab = a.restlab if a.restlab == b.restlab else (a.restlab if b.rest is None else b.restlab if a.rest is None else None)
        o.colsname = a.colsname if a.colsname == b.colsname else NOC
        o.ix = ix_join(a.ix, b.ix)
        o.cls = a.cls if a.cls == b.cls else None
        o.attrs = dict_join(a.attrs, b.attrs, _vj(extra))
        o.open = a.open or b.open or a.cls != b.cls
        o.ro = a.ro | b.ro
        o.sorted = a.sorted if a.sorted == b.sorted else None
        o.first = a.first if a.first == b.first else None
    elif isinstance(a, Ser):
        sp = {}
        for key in list(a.special) + [x for x in b.special if x not in a.special]:
            sp[key] = cell_join(a.special.get(key, a.cell), b.special.get(key, b.cell), extra)
        o.special = sp
        o.cell = cell_join(a.cell, b.cell, extra)
        o.ix = ix_join(a.ix, b.ix)
        o.name = a.name if a.name == b.name else NOC
        o.ro = a.ro | b.ro
    elif isinstance(a, Arr):
        o.cell = cell_join(a.cell, b.cell, extra)
        o.exact = a.exact if a.exact == b.exact else None
        o.order = a.order if a.order == b.order else None
        o.ro = a.ro | b.ro
        o.ix = a.ix if a.ix == b.ix else None
        o.special = a.special if a.special == b.special else {}
    elif isinstance(a, Idx):
        o.ix = ix_join(a.ix, b.ix)
    elif isinstance(a, Seq):
        o.segs = seq_join(a, b, extra)
        o.order = a.order if a.order == b.order else None
    elif isinstance(a, Dct):
        o.items = dict_join(a.items, b.items, _vj(extra))
        o.rest = a.rest if a.rest == b.rest else (a.rest or b.rest if not (a.rest and b.rest) else val_join(a.rest, b.rest, extra))
    elif isinstance(a, Inst):
        o.attrs = dict_join(a.attrs, b.attrs, _vj(extra))
        o.cls = a.cls if a.cls == b.cls else None
    elif isinstance(a, Grp):
        if a.src != b.src or a.keys != b.keys:
            return Opq(typ="object", cell=Cell(extra))
    elif isinstance(a, Rng):
        o.src = a.src if a.src == b.src else ("mixed", a.src, b.src)
        o.cell = cell_join(a.cell, b.cell, extra)
    elif isinstance(a, Opq):
        o.typ = a.typ if a.typ == b.typ else "object"
        o.cell = cell_join(a.cell, b.cell, extra)
        o.data = dict_join(a.data, b.data, lambda x, y: x if x == y else None)
    return o


def state_join(a, b, extra=EMPTY):
    if a is None:
        return b
    if b is None:
        return a
    heap = {}
    for oid, x in a.heap.items():
        y = b.heap.get(oid)
        heap[oid] = x if y is None or y is x else obj_join(x, y, extra)
    for oid, y in b.heap.items():
        if oid not in heap:
            heap[oid] = y
    env = dict_join(a.env, b.env, _vj(extra))
    return State(env, heap, a.pc & b.pc if a.pc != b.pc else a.pc, a.facts & b.facts)


def state_same(a, b):
    if a.env != b.env:
        return False
    for oid, x in a.heap.items():
        y = b.heap.get(oid)
        if y is None or (x is not y and not x.same(y)):
            return False
    return True
