"""Model of pandas objects."""
import csv
import json
import os
from .dom import *
from . import dom
from . import terms as T
from . import lib_py as py
from . import lib_np as np_
from . import miss
from .lib_py import constof, sc, alltags, iterate, lab_name
from .lib_np import (as_cell, asobj, lift, red_cell, cum_cell, rows_tok, ro_taint, cell_unary, cell_binop, cast_cell,
                     slice_ix, to_arr, argget, check_sig, cell_compare, rounded)

NAN = float("nan")
NANC = const_cell(NAN)
ACCESSORS = ("loc", "iloc", "at", "iat")
RED = ("sum", "mean", "max", "min", "median", "std", "var", "prod", "count", "nunique", "any", "all", "sem", "skew", "first", "last",
       "size", "quantile", "idxmax", "idxmin", "product", "kurt")
CUM = ("cumsum", "cumprod", "cummax", "cummin", "diff", "shift", "pct_change", "rank", "ffill", "bfill")


def types_of(o):
    if isinstance(o, Frame):
        return "DataFrame"
    if isinstance(o, Ser):
        return "Series"
    if isinstance(o, Idx):
        return "Index"
    if isinstance(o, Grp):
        return "DataFrameGroupBy" if not isinstance(o.sel, (str, AbsStr)) else "SeriesGroupBy"
    return None


_API = {}


def is_pandas_attr(cls, name):
    if not _API:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.json")) as fh:
            _API.update(json.load(fh)["classes"])
    return name in _API[cls]


def truthy(v):
    c = constof(v) if v is not None else NOC
    return c if isinstance(c, (bool, int)) or c is None else NOC


def isaxis1(v):
    c = constof(v) if v is not None else NOC
    return c in (1, "columns") and c is not True


def join_all(cells):
    c = None
    for x in cells:
        if x is None:
            continue
        c = x if c is None else cell_join(c, x)
    return c


# ---- construction helpers ------------------------------------------------
def plain(o, **kw):
    """a fresh ordinary frame/series with the content of o"""
    g = o.clone()
    g.owner, g.base, g.site = EMPTY, None, None
    if isinstance(g, Frame):
        g.cls, g.attrs = None, {}
    if isinstance(g, Ser):
        g.frame = None
    for a, b in kw.items():
        setattr(g, a, b)
    return g


def map_frame(o, f, **kw):
    g = plain(o)
    g.cols = {a: c.map(f) for a, c in o.cols.items()}
    g.rest = o.rest.map(f) if o.rest is not None else None
    for a, b in kw.items():
        setattr(g, a, b)
    return g


def map_ser(o, f, **kw):
    g = plain(o)
    g.cell = f(o.cell) if o.cell is not None else None
    g.special = {a: f(c) for a, c in o.special.items()}
    for a, b in kw.items():
        setattr(g, a, b)
    return g


def fresh_frame(I, f, n, st):
    return I.new(st, plain(f), n)


def col_cell(f, key):
    c = f.cols.get(key)
    return c.all() if c is not None else None


def cols_ix(o):
    names = tuple(o.cols)
    if o.rest is not None or o.open:
        return Ix((o.colsname,), (Cell(lab=o.restlab, dt="label"),), names)
    return Ix((o.colsname,), (None,), names)


def row_ser(o, special=None):
    """one row of a frame, indexed by column name; special: label of a special row"""
    g = Ser(ix=cols_ix(o))
    for a, c in o.cols.items():
        x = special_cell(c, special) if special is not None else c.cell
        g.special[a] = x if x is not None else (c.all())
    if o.rest is not None:
        x = special_cell(o.rest, special) if special is not None else o.rest.cell
        g.cell = x if x is not None else o.rest.all()
    elif o.open:
        g.cell = UNK
    return g


def ix_from(I, v, st):
    """row axis described by a value used as an index"""
    if v is None or v == NONE:
        return RANGE
    o = asobj(I, v, st)
    if isinstance(o, Idx):
        ix = o.ix
        if o.axis == 1 and len(ix.cells) == 1 and ix.cells[0] is not None and ix.cells[0].dt == "label":
            ix = ix.w(cells=(ix.cells[0].w(dt="int"),))
        return ix
    if isinstance(o, Ser):
        sp = tuple(c.const for c in o.special.values() if c.const is not NOC)
        return Ix((o.name if o.name is not NOC else NOC,), (o.cell,), sp)
    if isinstance(o, Arr):
        sp = tuple(x for x in (o.ix.special if o.ix is not None else ()))
        c = o.cell
        if o.exact is not None and all(isinstance(x.const, (str, AbsStr)) for x in o.exact) and o.exact:
            return Ix((None,), (None,), tuple(dict.fromkeys(x.const for x in o.exact)))
        return Ix((None,), (c,), tuple(x for x in sp if not isinstance(x, tuple)))
    if isinstance(o, Seq):
        sp, main = [], None
        for x, m in o.segs:
            c = constof(x)
            if isinstance(c, (str, AbsStr)):
                if c not in sp:
                    sp.append(c)
            else:
                cc = as_cell(I, x, st)
                main = cc if main is None else cell_join(main, cc)
        return Ix((None,), (main,), tuple(sp))
    return Ix((None,), (Cell(I.tags_of(v, st)),), ())


def align_event(I, ixa, ixb, n, what):
    if len(ixa.cells) == len(ixb.cells) == 1 and ixa.cells[0] is not None and ixb.cells[0] is not None:
        a, b = ixa.cells[0].lab, ixb.cells[0].lab
        if a != b and a in ("O", "D", "pos") and b in ("O", "D", "pos") and "%s" not in (a, b):
            I.event("misalign", n, "%s: rows labelled by %s are matched with rows labelled by %s" % (what, lab_name(a), lab_name(b)))
            return True
    return False


def as_col(I, v, ix, st, n, what="column assignment"):
    """value assigned as a column of a frame with row axis ix"""
    o = asobj(I, v, st)
    extra = v.tags if isinstance(v, Ref) else EMPTY
    if isinstance(o, Ser):
        bad = align_event(I, ix, o.ix, n, what)
        t = ro_taint(o.ro) if False else EMPTY
        sp = {a: c.tag(extra) for a, c in o.special.items() if a in ix.special}
        cell = o.cell
        if bad:
            cell = NANC
        if cell is None and o.special:
            cell = NANC
        col = Col(cell.tag(extra) if cell is not None else None, sp)
        for s in ix.special:
            if s not in col.special and o.cell is not None and s in o.ix.special:
                col.special[s] = o.cell
            elif s not in col.special:
                col.special[s] = NANC
        return col
    if isinstance(o, (Arr, Seq, Idx)):
        if isinstance(o, Idx):
            ixx = o.ix
            return Col(ixx.cells[0] if len(ixx.cells) == 1 else as_cell(I, v, st), {s: const_cell(s) for s in ixx.special if s in ix.special})
        a = to_arr(I, v, st)
        sp = {s: c.tag(extra) for s, c in a.special.items() if s in ix.special}
        c = a.cell
        if isinstance(o, Seq):
            o2 = [x for x, _ in o.segs]
            if len(ix.special) and ix.cells == (None,) and len(o2) == len(ix.special):
                return Col(None, {s: as_cell(I, x, st) for s, x in zip(ix.special, o2)})
            segs = tuple(o.segs)
            if miss.FORM[0] and c.term is not None and miss.as_column(c) is not c:
                return Col(miss.as_column(c).tag(extra), sp)
            if segs and segs[0][1] and not any(m for _, m in segs[1:]) and all(isinstance(x, Sc) for x, _ in segs):
                segs = tuple(x.cell.tag(extra) for x, _ in segs)
                if ix == RANGE:
                    return Col(c.tag(extra), sp, False, segs)
                r = by_position(segs, ix)
                if r is not None:
                    return r
        return Col(c.tag(extra), sp)
    if isinstance(o, Frame):
        cs = [c for c in o.cols.values()] + ([o.rest] if o.rest is not None else [])
        if cs:
            c = cs[0]
            for x in cs[1:]:
                c = dom.col_join(c, x)
            return Col(c.cell, {s: x for s, x in c.special.items() if s in ix.special})
        return Col(UNK)
    c = as_cell(I, v, st)
    return Col(c if ix.cells != (None,) or not ix.special else None, {s: c for s in ix.special})


def by_position(segs, ix):
    """column whose list followed the rows of ix: ordinary rows first, then the extra rows"""
    if len(segs) == 1 + len(ix.special) and ix.cells != (None,):
        return Col(segs[0], dict(zip(ix.special, segs[1:])))
    return None


def repos(g):
    """a table that received its row labels after construction"""
    for a, c in list(g.cols.items()):
        if c.segs is not None:
            r = by_position(c.segs, g.ix)
            if r is not None:
                g.cols[a] = r


def store(old, new, tags=EMPTY):
    """value of a cell class after some members are assigned"""
    new = new.tag(tags)
    if old is None:
        return new
    if old.const is not NOC and isinstance(old.const, float) and old.const != old.const:
        return new.tag(old.tags)
    if {old.rep, new.rep} == {"DIFFC", "C"}:
        return cell_join(old, new).w(rep="I")
    r = cell_join(old, new)
    if new.const is not NOC and isinstance(new.const, float) and new.const != new.const and old.term is not None:
        r.term = old.term       # blanking some members says nothing about the others
    return r


def frame_init(I, ref, args, kwargs, n, st):
    """DataFrame.__init__ on an existing (possibly subclassed) object"""
    o = st.mut(ref.oid)
    data = argget(args, kwargs, 0, "data")
    index = argget(args, kwargs, 1, "index")
    columns = argget(args, kwargs, 2, "columns")
    g = build_frame(I, data, index, columns, n, st)
    for f, _ in Frame.fields:
        if f not in ("cls", "attrs"):
            setattr(o, f, getattr(g, f))
    o.base = g.base if truthy(kwargs.get("copy")) is not True else None
    return NONE


def build_frame(I, data, index, columns, n, st):
    if isinstance(data, Un):
        a = [x for x in data.atoms if x not in (UNB, NONE)]
        g = None
        for x in a[1:]:
            h = build_frame(I, x, index, columns, n, st)
            g = h if g is None else obj_join(g, h)
        data = a[0] if a else NONE
        if g is not None:
            h = build_frame(I, data, index, columns, n, st)
            g = obj_join(h, g)
            g.base = h.base or g.base
            return g
    d = asobj(I, data, st) if data is not None else None
    if isinstance(d, Seq) and d.kind == "gen":
        d = Seq(kind="list", segs=d.segs)
    if isinstance(d, Frame):
        g = plain(d)
        g.base = data.oid
        if columns is not None and columns != NONE:
            return select_cols(I, g, columns, n, st)
        if index is not None and index != NONE:
            g.ix = ix_from(I, index, st)
        return g
    g = Frame(ix=ix_from(I, index, st))
    if isinstance(d, Ser):
        g.ix = d.ix if index is None else g.ix
        nm = d.name if d.name is not NOC and d.name is not None else 0
        g.cols[nm] = Col(d.cell, dict(d.special))
        g.base = data.oid
        return g
    cnames, rest = None, None
    if columns is not None and columns != NONE:
        cnames, rest = col_spec(I, columns, st)
    if isinstance(d, Dct):
        first = True
        for kk, v in d.items.items():
            vo = asobj(I, v, st)
            if isinstance(vo, (Ser,)) and index is None and first and not isinstance(kk, tuple):
                g.ix = vo.ix
                first = False
        for kk, v in d.items.items():
            if isinstance(kk, tuple) and kk[:1] == ("%",):
                g.rest = as_col(I, v, g.ix, st, n, "table construction")
                g.restlab = kk[1].lab
                continue
            g.cols[kk] = as_col(I, v, g.ix, st, n, "table construction")
            vo = asobj(I, v, st)
            if vo is not None:
                g.ro |= getattr(vo, "ro", EMPTY)
        if d.rest is not None:
            g.rest = as_col(I, d.rest, g.ix, st, n, "table construction") if isinstance(d.rest, Ref) else Col(Cell(I.tags_of(d.rest, st)))
        if cnames is not None:
            ng = {}
            for c in cnames:
                ng[c] = g.cols.get(c, Col(NANC, {s: NANC for s in g.ix.special}))
            g.cols = ng
        return g
    if data is None or data == NONE:
        cell = NANC
        src = None
    elif isinstance(d, Arr):
        cell, src = d.cell, d
        g.ro = d.ro
        if d.lay is not None and g.ix == RANGE:
            g.ix = Ix((None,), (RANGE.cells[0].w(term=T.atom("rowpos", d.lay)),), ())
    elif isinstance(d, Seq):
        # list of records
        recs = [x for x, _ in d.segs]
        ro0 = [asobj(I, x, st) for x in recs]
        if ro0 and all(isinstance(x, Dct) for x in ro0):
            names = []
            for x in ro0:
                names += [a for a in x.items if a not in names]
            for a in names:
                cs = [as_cell(I, x.items[a], st) for x in ro0 if a in x.items]
                g.cols[a] = Col(join_all(cs))
            if any(x.rest is not None for x in ro0):
                g.open = True
            return g
        if ro0 and all(isinstance(x, Ser) for x in ro0):
            for x in ro0:
                for a, c in x.special.items():
                    g.cols[a] = Col(cell_join(g.cols[a].cell, c) if a in g.cols else c)
                if x.cell is not None:
                    g.rest = Col(x.cell)
                    g.restlab = x.ix.cells[0].lab if x.ix.cells and x.ix.cells[0] is not None else None
            return g
        if ro0 and all(isinstance(x, Seq) and x.exact() for x in ro0) and len({len(x.segs) for x in ro0}) == 1:
            w = len(ro0[0].segs)
            cs = [join_all([as_cell(I, x.segs[i][0], st) for x in ro0]) for i in range(w)]
            nm = cnames if cnames is not None and len(cnames) == w else list(range(w))
            if cnames is not None and rest is None and len(cnames) != w:
                I.fail("type-error", n, "%d columns passed, data had %d columns" % (len(cnames), w), st=st)
            g.cols = {a: Col(c) for a, c in zip(nm, cs)}
            return g
        cell, src = as_cell(I, data, st), None
    else:
        cell, src = as_cell(I, data, st), None
    spec = getattr(src, "special", {}) or {}
    bycol = [c for kk, c in spec.items() if isinstance(kk, tuple) and kk[:1] == ("col",)]
    if cnames is not None:
        for i, c in enumerate(cnames):
            x = cell
            if len(bycol) == len(cnames):
                x = bycol[i]
            elif bycol and ("col", c) in spec:
                x = spec[("col", c)]
            g.cols[c] = Col(x if g.ix.cells != (None,) or data is not None else None, {s: x for s in g.ix.special})
    if rest is not None:
        g.rest, g.restlab = Col(cell, {s: cell for s in g.ix.special}), rest
        if g.ix.cells == (None,):
            g.rest.cell = None
    if cnames is None and rest is None and data is not None:
        if isinstance(src, Arr) and src.nd == 2 or src is None:
            g.rest, g.restlab = Col(cell), "pos"
        else:
            g.cols[0] = Col(cell)
    if columns is not None and cnames is None and rest is None:
        g.open = True
        g.rest = Col(cell)
    return g


def col_spec(I, columns, st):
    """(constant names, label kind of unnamed columns)"""
    o = asobj(I, columns, st)
    names, lab = [], None
    if isinstance(o, Idx):
        names = list(o.ix.special)
        if o.ix.cells and o.ix.cells[0] is not None:
            lab = o.ix.cells[0].lab or "any"
        return names, lab
    if isinstance(o, Ser):
        return names, (o.cell.lab or "any") if o.cell is not None else None
    if isinstance(o, Arr):
        if o.exact is not None and all(c.const is not NOC for c in o.exact):
            return [c.const for c in o.exact], None
        return names, o.cell.lab or "any"
    if isinstance(o, Seq):
        for x, m in o.segs:
            c = constof(x)
            if c is not NOC and isinstance(c, (str, AbsStr, int)):
                if c not in names:
                    names.append(c)
            else:
                lab = as_cell(I, x, st).lab or "any"
        return names, lab
    c = constof(columns)
    if isinstance(c, (tuple, list)):
        return list(c), None
    return None, None


def match_key(o, c):
    """column key of frame o for constant c, or None"""
    if c in o.cols:
        return c
    if isinstance(c, AbsStr):
        for kk in o.cols:
            if isinstance(kk, AbsStr) and kk.kind == c.kind and kk.src == c.src:
                return kk
    return None


def has_absnames(o):
    return any(isinstance(kk, AbsStr) for kk in o.cols)


def find_col(I, o, key, n, st, what="column", ref=None):
    """Col for a scalar key; fails when it definitely does not exist"""
    c = constof(key)
    if c is not NOC and (isinstance(c, (str, AbsStr, int, float)) or c is None):
        m = match_key(o, c)
        if m is not None:
            return o.cols[m], m
        if isinstance(c, int) and not isinstance(c, bool) and o.rest is not None:
            if o.restlab == "D":
                I.event("label-compare", n, "the literal %r is used as a development label" % c, lab="D")
            return o.rest, None
        if o.open or isinstance(c, AbsStr) or (has_absnames(o) and isinstance(c, str)):
            if has_absnames(o):
                return Col(join_all([x.all() for kk, x in o.cols.items() if isinstance(kk, AbsStr)])), None
            return Col(UNK), None
        if o.rest is not None and o.restlab in (None, "any"):
            return o.rest, None
        I.fail("missing-col", n, "%s %r does not exist (columns: %s)" % (what, c, ", ".join(map(str, list(o.cols)[:12])) + (" and labels" if o.rest is not None else "")),
               st=st, name=c)
    lab = key.cell.lab if isinstance(key, Sc) else None
    kt = I.tags_of(key, st)
    if lab in ("O", "D") and o.rest is not None:
        if o.restlab in ("O", "D") and o.restlab != lab:
            I.event("label-pos", n, "an %s label is used to select among %s columns" % (lab_name(lab), lab_name(o.restlab)))
        return o.rest.map(lambda x: x.tag(kt)), None
    if lab == "pos" and o.rest is not None and o.restlab in ("O", "D") and isinstance(key, Sc) and key.cell.dt == "pyint":
        I.event("label-pos", n, "a position is used as an %s label" % lab_name(o.restlab))
    if o.rest is not None and not o.cols:
        return o.rest.map(lambda x: x.tag(kt)), None
    cs = list(o.cols.values()) + ([o.rest] if o.rest is not None else [])
    col = cs[0] if cs else Col(UNK)
    for x in cs[1:]:
        col = dom.col_join(col, x)
    return col.map(lambda x: x.tag(kt)), None


def need_col(I, ref, key, n, st):
    """a library call names a column of a frame"""
    o = asobj(I, ref, st)
    if not isinstance(o, Frame):
        return
    for a in atoms_of(key):
        c = constof(a)
        if c is None or c is NOC or not isinstance(c, str):
            continue
        if c not in o.cols and not o.open and o.restlab not in (None, "any") or \
                (c not in o.cols and not o.open and o.rest is None and not has_absnames(o)):
            if len(atoms_of(key)) == 1:
                I.fail("missing-col", n, "column %r does not exist (columns: %s)" % (c, ", ".join(map(str, list(o.cols)[:12]))), st=st, name=c)
            I.event("missing-col", n, "column %r does not exist" % c, name=c)


def select_cols(I, o, columns, n, st, tags=EMPTY):
    """sub-frame with the listed columns"""
    co = asobj(I, columns, st)
    g = plain(o)
    g.cols, g.rest = {}, None
    keys = []
    if isinstance(co, Idx):
        keys = [(k(s), False) for s in co.ix.special]
        if co.ix.cells and co.ix.cells[0] is not None:
            g.rest = o.rest.map(lambda c: c) if o.rest is not None else Col(NANC)
    elif isinstance(columns, Sc) and isinstance(constof(columns), (tuple, list)):
        keys = [(k(s), False) for s in constof(columns)]
    else:
        keys, _ = iterate(I, columns, n, st)
    for x, m in keys:
        for a in atoms_of(x):
            c = constof(a)
            if c is NOC and isinstance(a, Sc) and a.cell.lab in ("O", "D") and o.rest is not None:
                g.rest = o.rest
                continue
            if c is NOC:
                g.open = True
                g.rest = Col(join_all([UNK] + list(o.cells())).tag(I.tags_of(a, st)))
                continue
            col, kk = find_col(I, o, a, n, st)
            g.cols[c if kk is None else kk] = Col(col.cell, dict(col.special))
    if o.open:
        g.open = o.open and not all(not m for _, m in keys)
    return g


def filter_rows(I, ref, o, mask, n, st):
    """rows selected by a boolean mask"""
    mo = asobj(I, mask, st)
    tags = I.tags_of(mask, st)
    drop, keeponly = [], False
    main = NOC
    if isinstance(mo, (Ser, Arr)):
        for s, c in mo.special.items():
            if c.const is False:
                drop.append(s)
        main = mo.cell.const if mo.cell is not None else NOC
        rep = mo.cell.rep if mo.cell is not None else None
        if main is NOC and mo.cell is not None and mo.cell.dt == "bool" and isinstance(o, Frame) and \
                any(c.cell is not None and c.cell.lab == "sim" for c in o.cols.values()):
            # simulated amounts of the selected records only
            o = o.clone()
            how = rep if isinstance(rep, str) and rep.startswith("cmp:") else None
            w = lambda x: x.w(term=T.atom("rows", x.term, how)) if x.term is not None and not T.is_num(x.term) and how and "simv" in x.tags else x
            o.cols = {a: c.map(w) for a, c in o.cols.items()}
        elif main is NOC and mo.cell is not None and mo.cell.dt == "bool" and isinstance(o, Ser) and o.cell is not None and o.cell.term is not None and "simv" in o.cell.tags \
                and isinstance(rep, str) and rep.startswith("cmp:") and not T.is_num(o.cell.term) and T.fn_of(o.cell.term) != "rows":
            o = o.clone()
            o.cell = o.cell.w(term=T.atom("rows", o.cell.term, rep))
    g = filt(I, o, tags, n, drop, main is False)
    if miss.FORM[0] and isinstance(mo, (Ser, Arr)) and mo.cell is not None:
        miss.rewrite(g, lambda c: miss.solve(mo.cell, c))
        miss.kept_rows(g, mo.cell)
        if isinstance(o, Ser):
            miss.narrowed(o, g, "mask", miss.truthy(mo.cell))
    if miss.ON[0] and isinstance(mo, (Ser, Arr)) and mo.cell is not None and miss.nanbranch(mo.cell) is False:
        w = lambda c: miss.filtered(c, mo.cell) if c is not None else None
        g = map_frame(g, w) if isinstance(g, Frame) else map_ser(g, w)
    return g


def sampled(I, ref, args, kw, n, st):
    """rows drawn at random: from random_state, or from the process-wide state"""
    rs = kw.get("random_state", args[4] if len(args) > 4 else None)
    np_.rng_use(I, rs if rs is not None else NONE, "pandas sample", n, st)
    ro = asobj(I, rs, st) if rs is not None else None
    src = ro.src if isinstance(ro, Rng) else np_.seed_src(I, rs, st)
    t = I.tags_of(rs, st) | (ro.cell.tags if isinstance(ro, Rng) else EMPTY) if rs is not None else EMPTY
    if rs is not None and rs != NONE:
        I.event("draw", n, "draws sample from a generator seeded by %s" % src, src=src, owner=getattr(ro, "owner", frozenset()), dist="sample", site=getattr(ro, "site", None),
                oid=getattr(rs, "oid", None), tags=t)
    o = asobj(I, ref, st)
    t = t | {"simv"} | ({"rng:global"} if rs is None or rs == NONE else EMPTY)
    if isinstance(o, Frame):
        g = o.copy()
        for c in list(g.cols):
            g.cols[c] = g.cols[c].map(lambda x: x.w(term=None, const=NOC).tag(t))
        return I.new(st, g, n)
    if isinstance(o, Ser):
        return I.new(st, map_ser(o, lambda x: x.w(term=None, const=NOC).tag(t)), n)
    return ref


def over_rows(name, tags):
    """a method that combines neighbouring or all rows, hence those of several simulations"""
    return frozenset(["xsim"]) if "simv" in tags and name in ("rolling", "expanding", "ewm", "interpolate", "describe", "resample") else EMPTY


def filt(I, o, tags, n, drop=(), nomain=False):
    if isinstance(o, Frame) and "ord" in o.ro:
        I.event("rows", n, "keeps some of the records of a table")
    tok = "f%d.%d" % (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))
    ix = o.ix
    sp = tuple(s for s in ix.special if s not in drop)
    cells = tuple((c.w(rep=tok) if c is not None and c.lab in ("O", "D", "pos") else c) for c in ix.cells)
    if nomain and len(cells) == 1:
        cells = (None,)
    ix = ix.w(cells=cells, special=sp)

    tags = frozenset(tags) - {"simpos"}

    def col(c):
        return Col(None if nomain else (c.cell.tag(tags) if c.cell is not None else None),
                   {s: x.tag(tags) for s, x in c.special.items() if s not in drop}, c.maybe)
    g = plain(o, ix=ix)
    if isinstance(o, Frame):
        g.cols = {a: col(c) for a, c in o.cols.items()}
        g.rest = col(o.rest) if o.rest is not None else None
    else:
        c = col(Col(o.cell, o.special))
        g.cell, g.special = c.cell, c.special
    return g


def is_mask(I, key, st):
    o = asobj(I, key, st)
    if isinstance(o, (Ser, Arr)):
        c = o.cell if o.cell is not None else (o.all() if isinstance(o, Ser) else None)
        return c is not None and (c.dt == "bool" or isinstance(c.const, bool))
    if isinstance(o, Seq) and o.segs:
        return all(isinstance(x, Sc) and (x.cell.dt == "bool") for x, _ in o.segs)
    return False


def ser_view(I, ref, o, name, col, n, st):
    g = Ser(cell=col.cell, special=dict(col.special), ix=o.ix, ro=o.ro, base=ref.oid, frame=(ref.oid, name))
    g.name = name if name is not None else NOC
    r = I.new(st, g, n)
    return Ref(r.oid, ref.tags)


# ---- item access --------------------------------------------------------
def getitem(I, ref, key, n, st):
    o = st.heap[ref.oid]
    if isinstance(o, Frame):
        return frame_getitem(I, ref, o, key, n, st)
    if isinstance(o, Ser):
        return ser_getitem(I, ref, o, key, n, st)
    if isinstance(o, Idx):
        return idx_getitem(I, ref, o, key, n, st)
    if isinstance(o, Arr):
        return np_.arr_getitem(I, ref, key, n, st)
    if isinstance(o, Opq):
        return np_.opq_getitem(I, ref, key, n, st)
    if isinstance(o, Grp):
        return grp_getitem(I, ref, o, key, n, st)
    if isinstance(o, Seq):
        return seq_getitem(I, ref, o, key, n, st)
    if isinstance(o, Dct):
        c = constof(key)
        kt = I.tags_of(key, st)
        if c is not NOC:
            try:
                if c in o.items:
                    v = o.items[c]
                    if isinstance(v, Un) and UNB in v.atoms:
                        v = mkun([a for a in v.atoms if a != UNB])
                    return tag_ctl(v, ref.tags)
            except TypeError:
                pass
            if o.rest is not None:
                return o.rest
            if not isinstance(c, AbsStr) and not any(isinstance(x, (AbsStr, tuple)) for x in o.items):
                I.fail("missing-key", n, "key %r does not exist" % (c,), st=st, name=c)
        vals = list(o.items.values()) + ([o.rest] if o.rest is not None else [])
        vals = [v for v in vals if v != UNB]
        if not vals:
            return Top(kt)
        r = vals[0]
        for v in vals[1:]:
            r = val_join(r, v)
        return tag_ctl(r, kt | ref.tags)
    return Top(I.tags_of(ref, st) | I.tags_of(key, st))


def seq_getitem(I, ref, o, key, n, st):
    c = constof(key)
    if isinstance(key, Sc) and key.cell.lab in ("O", "D"):
        I.event("label-pos", n, "an %s label is used as a list position" % lab_name(key.cell.lab))
    if o.exact():
        if isinstance(c, int) and not isinstance(c, bool):
            if -len(o.segs) <= c < len(o.segs):
                return tag_ctl(o.segs[c][0], ref.tags)
            I.fail("bad-index", n, "index %d is out of range for %d elements" % (c, len(o.segs)), st=st)
        if isinstance(key, SliceV):
            lo, hi, step = (constof(x) for x in (key.lo, key.hi, key.step))
            if NOC not in (lo, hi, step):
                return I.new(st, Seq(kind=o.kind if o.kind != "gen" else "list", segs=o.segs[slice(lo, hi, step)],
                                     order=o.order if (lo, hi, step) == (None, None, None) else None), n)
    if isinstance(key, SliceV):
        if all(constof(x) is None for x in (key.lo, key.hi, key.step)):
            return I.new(st, Seq(kind=o.kind, segs=list(o.segs), order=o.order), n)
        e = I.elem(ref, n, st) if o.segs else None
        if miss.FORM[0] and isinstance(e, Sc):
            e = Sc(miss.sliced(e.cell, key))
        return I.new(st, Seq(kind=o.kind, segs=[(e, True)] if e is not None else [], order=None), n)
    if not o.segs:
        return Top(I.tags_of(key, st))
    if isinstance(key, Sc) and o.order is not None:
        t = T.single(key.cell.term)
        if t and t[0] == "posof" and t[1] == o.order and t[2] < len(o.segs):
            return tag_ctl(o.segs[t[2]][0], ref.tags)
    if isinstance(c, int) and 0 <= c < len(o.segs) and all(not m for _, m in o.segs[:c + 1]):
        return o.segs[c][0]
    if isinstance(c, int) and c < 0 and -c <= len(o.segs) and all(not m for _, m in o.segs[c:]):
        return o.segs[c][0]
    return tag_ctl(I.elem(ref, n, st), I.tags_of(key, st))


def grp_getitem(I, ref, o, key, n, st):
    f = asobj(I, o.src, st)
    g = o.clone()
    g.owner, g.site = EMPTY, None
    if isinstance(key, Sc):
        c = constof(key)
        if c is not NOC:
            if isinstance(f, Frame):
                need_col(I, o.src, key, n, st)
            g.sel = c
        else:
            g.sel = NOC
    else:
        names, lab = col_spec(I, key, st)
        for x in names or ():
            need_col(I, o.src, k(x), n, st)
        g.sel = tuple(names or ())
    return I.new(st, g, n)


def frame_getitem(I, ref, o, key, n, st):
    ko = asobj(I, key, st)
    if o.multi and isinstance(key, Sc):
        if isinstance(constof(key), str):
            g = plain(o, multi=False, colsname=o.colsname[-1] if isinstance(o.colsname, tuple) else None)
            return I.new(st, g, n)
    if isinstance(key, (Sc, Top)):
        col, nm = find_col(I, o, key, n, st, ref=ref)
        if nm is None and constof(key) is not NOC:
            nm = constof(key)
        if miss.ON[0]:
            col = col.map(lambda x: miss.at(x, None, key, False, 0, getattr(o, "cbase", 0)) if isinstance(key, Sc) and not isinstance(constof(key), (str, AbsStr)) else x)
        r = ser_view(I, ref, o, nm, col, n, st)
        if o.maybe_col(nm) if hasattr(o, "maybe_col") else False:
            pass
        return r
    if isinstance(key, SliceV):
        return row_slice(I, ref, o, key, n, st)
    if isinstance(ko, Frame):
        t = I.tags_of(key, st)
        return I.new(st, map_frame(o, lambda c: cell_join(c, NANC).w(term=None).tag(t)), n)
    if is_mask(I, key, st):
        r = I.new(st, filter_rows(I, ref, o, key, n, st), n)
        return Ref(r.oid, ref.tags)
    if isinstance(ko, (Seq, Arr, Idx, Ser)):
        return Ref(I.new(st, select_cols(I, o, key, n, st), n).oid, ref.tags)
    return Top(I.tags_of(ref, st) | I.tags_of(key, st))


def row_slice(I, ref, o, key, n, st):
    """positional row slice (a view)"""
    lo, hi, step = (constof(x) for x in (key.lo, key.hi, key.step))
    t = I.tags_of(key.lo, st) | I.tags_of(key.hi, st)
    if lo is None and hi is None and step == -1 and isinstance(o, Ser):
        g = plain(o)
        g.ro = o.ro ^ {"rev"}
        if miss.FORM[0] and g.cell is not None:
            g.cell = miss.sliced(g.cell, key)
        return Ref(I.new(st, g, n).oid, ref.tags)
    for x in (key.lo, key.hi):
        if isinstance(x, Sc) and x.cell.lab in ("O", "D"):
            I.event("label-pos", n, "an %s label is used as a row position" % lab_name(x.cell.lab))
    if lo in (None, 0) and hi is None and step in (None, 1):
        g = plain(o)
        g.base = ref.oid
        if isinstance(g, Ser):
            g.frame = o.frame
        return Ref(I.new(st, g, n).oid, ref.tags)
    ix = None
    if lo is not NOC and hi is not NOC:
        ix = slice_ix(o.ix, lo, hi)
    if ix is not None:
        drop = [s for s in o.ix.special if s not in ix.special]
        g = filt(I, o, t | taint_ord(o), n, drop)
        g.ix = ix.w(cells=tuple(c for c in ix.cells))
    else:
        g = filt(I, o, t | taint_ord(o), n)
        if o.ix.special:
            # cannot tell which special rows remain: weaken
            for s in o.ix.special:
                pass
    g.base = ref.oid
    if isinstance(g, Ser):
        if step in (None, 1):
            miss.narrowed(o, g, "win", miss.first_position(key.lo), miss.position(key.hi))
        g.frame = o.frame
        if miss.FORM[0] and g.cell is not None:
            g.cell = miss.sliced(g.cell, key)
    return Ref(I.new(st, g, n).oid, ref.tags)


def taint_ord(o):
    return frozenset(["roworder"]) if "ord" in o.ro else EMPTY


def ser_row(I, o, key, n, st, loc=True):
    """cell of a series at a scalar label"""
    c = constof(key)
    kt = I.tags_of(key, st)
    if c is not NOC and isinstance(c, (str, AbsStr)):
        if c in o.special and not is_some(c):
            return o.special[c]
        if c in o.ix.special and not is_some(c):
            return o.cell if o.cell is not None else UNK
        if is_some(c):
            return special_cell(o, c) or o.all()
        ab = [s for s in o.special if isinstance(s, AbsStr)] if isinstance(c, str) else list(o.special)
        if ab:
            cs = [o.special[s] for s in ab if label_may_match(s, c)]
            if cs:
                return join_all(cs)
        ixc = o.ix.cells[0] if len(o.ix.cells) == 1 else UNK
        if ixc is None or ixc.lab in ("O", "D", "pos"):
            if isinstance(c, str) and not any(isinstance(s, AbsStr) for s in o.special) and not any(isinstance(s, AbsStr) for s in o.ix.special):
                I.fail("missing-key", n, "row label %r does not exist" % (c,), st=st, name=c)
        return o.all()
    ixc = o.ix.cells[0] if len(o.ix.cells) == 1 else None
    lab = key.cell.lab if isinstance(key, Sc) else None
    if ixc is not None and ixc.lab in ("O", "D"):
        if isinstance(c, int) and not isinstance(c, bool):
            I.event("label-compare", n, "the literal %r is used as an %s label" % (c, lab_name(ixc.lab)), lab=ixc.lab)
        elif lab == "pos" and key.cell.dt == "pyint":
            I.event("label-pos", n, "a position is used as an %s label" % lab_name(ixc.lab))
        elif lab in ("O", "D") and lab != ixc.lab:
            I.event("label-pos", n, "an %s label is used where rows are labelled by %s" % (lab_name(lab), lab_name(ixc.lab)))
    elif ixc is not None and ixc.lab == "pos" and lab in ("O", "D"):
        I.event("label-pos", n, "an %s label is used as a row position" % lab_name(lab))
    r = o.cell if o.cell is not None else o.all()
    if miss.FORM[0] and isinstance(key, Sc):
        return miss.ser_at(r, key, False, o).tag(kt)
    if isinstance(key, Sc) and key.cell.lab in ("O", "D") and ixc is not None and r.term is not None and key.cell.term is not None \
            and key.cell.term != ixc.term:
        r = r.w(term=at_term(r.term, key.cell.term)) if not miss.of_cells(r) else miss.ser_at(r, key, False, o)
    return r.tag(kt)


def at_term(t, kt):
    if T.is_num(t):
        return t
    return T.mapatoms(t, lambda a: T.atom("at", a, kt))


def label_may_match(s, c):
    if s == c:
        return True
    if isinstance(s, str):
        s, c = c, s
    r = np_.cell_eq_str(s, c) if isinstance(s, AbsStr) else s == c
    return r is not False


def is_some(c):
    """a string of which only a part is known: stands for many"""
    return isinstance(c, AbsStr) and c.kind == "some"


def special_cell(col, c):
    """cell of the special row c of a column, joined over the partly known labels it may be"""
    if c in col.special and not is_some(c):
        return col.special[c]
    cs = [x for s, x in col.special.items() if label_may_match(s, c)]
    if cs:
        return join_all(cs)
    return col.cell


def ser_getitem(I, ref, o, key, n, st):
    ko = asobj(I, key, st)
    if isinstance(key, SliceV):
        return row_slice(I, ref, o, key, n, st)
    if isinstance(key, (Sc, Top)):
        return Sc(ser_row(I, o, key, n, st).tag(ref.tags))
    if is_mask(I, key, st):
        r = I.new(st, filter_rows(I, ref, o, key, n, st), n)
        return Ref(r.oid, ref.tags)
    if isinstance(ko, Seq) and ko.exact():
        g = plain(o)
        g.special = {}
        keep = None
        for x, _ in ko.segs:
            c = constof(x)
            cell = ser_row(I, o, x, n, st)
            if isinstance(c, (str, AbsStr)):
                g.special[c] = cell
            else:
                keep = cell_join(keep, cell) if keep is not None else cell
        g.cell = keep
        g.ix = o.ix.w(special=tuple(g.special))
        return I.new(st, g, n)
    return I.new(st, filt(I, o, I.tags_of(key, st), n), n)


def idx_getitem(I, ref, o, key, n, st):
    ko = asobj(I, key, st)
    c = constof(key)
    ix = o.ix
    main = ix.cells[0] if len(ix.cells) == 1 else UNK
    if isinstance(key, Sc):
        if key.cell.lab in ("O", "D"):
            I.event("label-pos", n, "an %s label is used as a position" % lab_name(key.cell.lab))
        if isinstance(c, int):
            if main is None:
                if -len(ix.special) <= c < len(ix.special):
                    return k(ix.special[c])
                I.fail("bad-index", n, "index %d out of range" % c, st=st)
            if c < 0 and -c <= len(ix.special):
                return k(ix.special[c])
            r = main
            if main.lab in ("O", "D"):
                r = main.w(rep={0: "first", -1: "max"}.get(c, "#%d" % c), term=T.atom("lbl", main.lab, c))
                if miss.AVG[0] and main.rep is not None:
                    r = r.w(term=T.atom("lblof", main.rep, c) if main.rep in miss.ROWS else None)
            return Sc(r.tag(key.cell.tags))
        r = main if main is not None else UNK
        if main is not None and main.lab in ("O", "D"):
            r = main.w(rep=None, term=T.atom("lblat", main.lab, key.cell.term) if key.cell.term is not None else None)
        if ix.special and not key.cell.lab:
            pass
        return Sc(r.tag(key.cell.tags))
    if isinstance(key, SliceV):
        lo, hi = constof(key.lo), constof(key.hi)
        nix = slice_ix(ix, lo, hi) if lo is not NOC and hi is not NOC and main is not None else None
        if main is None and NOC not in (lo, hi):
            nix = ix.w(special=ix.special[slice(lo, hi, constof(key.step))])
        if nix is None:
            nix = ix.w(cells=tuple(x.w(rep="s%d" % getattr(n, "lineno", 0)) if x is not None and x.lab else x for x in ix.cells))
        g = Idx(ix=nix)
        if constof(key.step) in (None, 1) and main is not None:
            miss.narrowed(o, g, "win", miss.first_position(key.lo), miss.position(key.hi))
        return I.new(st, g, n)
    if isinstance(ko, (Arr, Ser, Seq, Idx)):
        t = I.tags_of(key, st)
        sp = ix.special
        if isinstance(ko, (Arr, Ser)):
            sp = tuple(s for s in sp if not (s in ko.special and ko.special[s].const is False))
        g = Idx(ix=ix.w(special=sp, cells=tuple(x.w(rep="f%d" % getattr(n, "lineno", 0), tags=x.tags | t) if x is not None else None for x in ix.cells)))
        if isinstance(ko, (Arr, Ser)) and ko.cell is not None and ko.cell.dt == "bool":
            miss.narrowed(o, g, "mask", miss.truthy(ko.cell))
        return I.new(st, g, n)
    return Top(I.tags_of(ref, st))


# ---- item assignment ------------------------------------------------------
def parent_update(I, o, st, cell, sp=None):
    """a write through a series that is a view of a frame's column"""
    if o.frame is None:
        return
    oid, name = o.frame
    if oid not in st.heap or not isinstance(st.heap[oid], Frame):
        return
    f = st.mut(oid)
    if name is not None and name in f.cols:
        c = f.cols[name]
        f.cols[name] = Col(store(c.cell, cell) if c.cell is not None and sp is None else c.cell,
                           {s: (store(x, cell) if sp is None or s == sp else x) for s, x in c.special.items()})
    elif f.rest is not None:
        f.rest = f.rest.map(lambda x: store(x, cell))


def setitem(I, ref, key, v, n, st):
    o = st.heap[ref.oid]
    if isinstance(key, Un):
        for a in key.atoms:
            setitem(I, ref, a, v, n, st)
        return
    if isinstance(o, Frame):
        return frame_setitem(I, ref, o, key, v, n, st)
    if isinstance(o, Ser):
        I.mutate(ref, n, st, "item assignment")
        m = st.mut(ref.oid)
        c = constof(key)
        if miss.FORM[0]:
            return vec_assign(I, m, key, v, False, n, st)
        cell = as_cell(I, v, st).tag(I.tags_of(key, st))
        if isinstance(c, (str, AbsStr)):
            m.special[c] = cell
            if c not in m.ix.special:
                m.ix = m.ix.w(special=m.ix.special + (c,))
        else:
            m.cell = store(m.cell, cell)
            if isinstance(key, SliceV) or not isinstance(key, Sc):
                m.special = {s: store(x, cell) for s, x in m.special.items()}
        parent_update(I, m, st, cell)
        return
    if isinstance(o, Arr):
        np_.arr_setitem(I, ref, key, v, n, st)
        return
    if isinstance(o, Seq):
        I.mutate(ref, n, st, "list item assignment")
        m = st.mut(ref.oid)
        c = constof(key)
        if m.exact() and isinstance(c, int) and -len(m.segs) <= c < len(m.segs):
            m.segs[c] = (v, False)
        else:
            m.segs = [(val_join(x, v), mm) for x, mm in m.segs]
        m.order = None
        return
    if isinstance(o, Dct):
        I.mutate(ref, n, st, "dict item assignment", key=constof(key))
        m = st.mut(ref.oid)
        py.dict_put(m, key, v)
        return
    if isinstance(o, Opq):
        I.mutate(ref, n, st, "item assignment")
        return


def vec_assign(I, m, key, v, pos, n, st):
    """a value of a series is assigned (formulas)"""
    c = constof(key)
    cell = as_cell(I, v, st).tag(I.tags_of(key, st))
    if isinstance(c, (str, AbsStr)):
        some_store(m, c, cell)
        if c not in m.ix.special:
            m.ix = m.ix.w(special=m.ix.special + (c,))
        return
    old = m.cell
    if isinstance(key, Sc) and key.cell.lab in ("O", "D") and key.cell.term is None and old is not None and old.term is not None:
        # a label computed from others: one more value
        m.cell = store(old, cell).w(term=old.term)
        I.event("vecgrow", n, "a value is added to %s" % T.show(old.term, 4), key=key.cell, term=cell.term, old=old.term)
        return
    name = miss.vec_stored(I, m, key, cell, pos, n, st)
    m.cell = store(old, cell).w(term=name)


def frame_setitem(I, ref, o, key, v, n, st):
    I.mutate(ref, n, st, "column assignment", key=constof(key))
    ko = asobj(I, key, st)
    m = st.mut(ref.oid)
    if miss.ON[0] and miss.is_tri(o) and (isinstance(ko, Frame) or isinstance(key, Sc) and key.cell.lab == "D"):
        vc = as_cell(I, v, st)
        f = st.facts
        if isinstance(ko, Frame):
            st.facts = f | {(as_cell(I, key, st).term, True)}
        miss.stored(I, o, None, key if isinstance(key, Sc) else None, False, vc, n, st)
        st.facts = f
        if m.rest is not None and m.rest.cell is not None:
            m.rest = Col(miss.assigned(m.rest.cell, vc), m.rest.special)
        return
    if isinstance(key, Sc):
        c = constof(key)
        vo = asobj(I, v, st)
        if not m.cols and m.rest is None and m.ix == RANGE and vo is not None:
            if isinstance(vo, Ser):
                m.ix = vo.ix
        col = as_col(I, v, m.ix, st, n)
        if c is not NOC and isinstance(c, (str, AbsStr, int)):
            if isinstance(c, int) and m.rest is not None and c not in m.cols:
                m.rest = Col(store(m.rest.cell, col.cell or UNK), m.rest.special)
            else:
                if miss.FORM[0] and isinstance(c, str) and col.cell is not None:
                    I.event("colstore", n, "column %s := %s" % (c, T.show(col.cell.term, 4)[:200]), key=c, term=col.cell.term,
                            cols={a: x.cell.term for a, x in m.cols.items() if x.cell is not None and isinstance(a, str)})
                m.cols[c] = col
        elif key.cell.lab in ("O", "D") or m.rest is not None:
            if m.rest is None:
                m.rest, m.restlab = col, key.cell.lab or "any"
            else:
                m.rest = Col(store(m.rest.cell, col.cell) if col.cell is not None else m.rest.cell,
                             {s: store(x, col.special.get(s, col.cell or UNK)) for s, x in m.rest.special.items()})
                m.restlab = m.restlab or key.cell.lab
        else:
            m.open = True
            m.rest = col if m.rest is None else dom.col_join(m.rest, col)
        if vo is not None and "ord" in getattr(vo, "ro", EMPTY):
            pass
        return
    if isinstance(ko, (Seq, Idx, Arr)) and not is_mask(I, key, st):
        names, lab = col_spec(I, key, st)
        vo = asobj(I, v, st)
        if isinstance(vo, Frame):
            src = list(vo.cols.values())
            for i, nm in enumerate(names or ()):
                x = src[i] if i < len(src) else (vo.rest or Col(UNK))
                m.cols[nm] = Col(x.cell, {s: x.special.get(s, NANC) for s in m.ix.special})
            if lab and vo.rest is not None and m.rest is not None:
                m.rest = vo.rest
        elif isinstance(vo, Seq) and vo.exact() and len(vo.segs) == len(names or ()):
            for nm, (x, _) in zip(names, vo.segs):
                m.cols[nm] = as_col(I, x, m.ix, st, n)
        else:
            col = as_col(I, v, m.ix, st, n)
            for nm in names or ():
                m.cols[nm] = Col(col.cell, dict(col.special))
            if lab and m.rest is not None:
                m.rest = Col(store(m.rest.cell, col.cell or UNK), m.rest.special)
        return
    # boolean frame / row mask
    cell = as_cell(I, v, st).tag(I.tags_of(key, st))
    for a, c in list(m.cols.items()):
        m.cols[a] = c.map(lambda x: store(x, cell))
    if m.rest is not None:
        m.rest = m.rest.map(lambda x: store(x, cell))


# ---- accessors ------------------------------------------------------------
def accessor_attr(I, mv, name, n, st):
    if mv.name in ("str", "dt", "cat", "plot"):
        return MethV(mv.obj, name, mv.name)
    return TOP


def split_key(I, key, st):
    o = asobj(I, key, st)
    if isinstance(o, Seq) and o.kind == "tuple":
        parts = [x for x, _ in o.segs]
        return parts
    return [key]


def pos_check(I, x, n, what):
    if isinstance(x, Sc) and x.cell.lab in ("O", "D"):
        I.event("label-pos", n, "an %s label is used as a %s position" % (lab_name(x.cell.lab), what))
    if isinstance(x, SliceV):
        pos_check(I, x.lo, n, what)
        pos_check(I, x.hi, n, what)


def accessor_get(I, mv, key, n, st):
    obj = mv.obj
    if isinstance(obj, Un):
        return I.per_atom(obj, lambda a, s: accessor_get(I, MethV(a, mv.name, mv.via), key, n, s), st)
    if isinstance(key, Un):
        return I.per_atom(key, lambda a, s: accessor_get(I, mv, a, n, s), st)
    if mv.name not in ACCESSORS or not isinstance(obj, Ref):
        return Top(I.tags_of(obj, st) | I.tags_of(key, st))
    o = st.heap[obj.oid]
    parts = split_key(I, key, st)
    if isinstance(o, Ser):
        if mv.name in ("loc", "at"):
            if isinstance(parts[0], SliceV):
                t = I.tags_of(parts[0].lo, st) | I.tags_of(parts[0].hi, st)
                g = filt(I, o, t, n)
                g.base = obj.oid
                return I.new(st, g, n)
            return ser_getitem(I, obj, o, parts[0], n, st)
        return ser_iloc(I, obj, o, parts[0], n, st)
    if not isinstance(o, Frame):
        return Top(I.tags_of(obj, st) | I.tags_of(key, st))
    rk = parts[0]
    ck = parts[1] if len(parts) > 1 else None
    for x in (rk, ck):
        if isinstance(x, Un):
            i = 0 if x is rk else 1
            def f(a, s, i=i):
                p = list(parts)
                p[i] = a
                return accessor_get(I, mv, I.seq(s, p, node=n), n, s)
            return I.per_atom(x, f, st)
    if mv.name in ("iloc", "iat"):
        pos_check(I, rk, n, "row")
        pos_check(I, ck, n, "column")
        r = iloc_get(I, obj, o, rk, ck, n, st)
        if miss.FORM[0] and isinstance(rk, SliceV) and isinstance(r, Ref) and isinstance(st.heap[r.oid], Frame):
            miss.cut_out(o, st.mut(r.oid), rk, ck)
        return r
    return loc_get(I, obj, o, rk, ck, n, st)


def ser_iloc(I, ref, o, key, n, st):
    pos_check(I, key, n, "row")
    if isinstance(key, SliceV):
        return row_slice(I, ref, o, key, n, st)
    if isinstance(key, Sc):
        c = constof(key)
        t = taint_ord(o) | key.cell.tags
        sps = list(o.ix.special)
        if isinstance(c, int) and (o.ix.cells == (None,) or o.cell is None):
            if -len(sps) <= c < len(sps):
                return Sc(o.special.get(sps[c], UNK).tag(t))
        if isinstance(c, int) and c < 0 and -c <= len(sps):
            return Sc(o.special.get(sps[c], o.cell or UNK).tag(t))
        r = o.cell if o.cell is not None else o.all()
        if miss.FORM[0]:
            r = miss.ser_at(miss.placed(o, r), key, True)
        elif isinstance(c, int):
            r = r.w(term=T.atom("row", r.term, c) if r.term is not None and not T.is_num(r.term) else r.term)
        elif r.term is not None and not T.is_num(r.term):
            r = r.w(term=None)
        return Sc(r.tag(t))
    t = I.tags_of(key, st)
    return I.new(st, filt(I, o, t, n), n)


def pick_col(I, ref, o, ck, n, st):
    """(col, name, cells) for a positional column key"""
    c = constof(ck)
    names = list(o.cols)
    t = I.tags_of(ck, st)
    if isinstance(c, int):
        if o.rest is None and not o.open:
            if -len(names) <= c < len(names):
                return o.cols[names[c]], names[c]
            I.fail("bad-index", n, "column position %d out of range" % c, st=st)
        if o.rest is not None and not o.cols:
            col = o.rest
            if c == 0:
                col = col.map(lambda x: x.w(rep="C" if x.rep == "I" and False else x.rep))
            return col, None
    cs = list(o.cols.values()) + ([o.rest] if o.rest is not None else [])
    col = cs[0] if cs else Col(UNK)
    for x in cs[1:]:
        col = dom.col_join(col, x)
    return col.map(lambda x: x.tag(t)), None


def iloc_get(I, ref, o, rk, ck, n, st):
    if ck is None:
        if isinstance(rk, SliceV):
            return row_slice(I, ref, o, rk, n, st)
        if isinstance(rk, Sc):
            c = constof(rk)
            sps = o.ix.special
            sp = sps[c] if isinstance(c, int) and c < 0 and -c <= len(sps) else None
            g = row_ser(o, sp)
            t = taint_ord(o) | rk.cell.tags
            g = map_ser(g, lambda x: x.tag(t))
            if miss.ON[0]:
                g = map_ser(g, lambda x: miss.at(miss.placed(o, x) if miss.FORM[0] else x, rk, None, True))
            g.base = ref.oid
            return I.new(st, g, n)
        return I.new(st, filt(I, o, I.tags_of(rk, st), n), n)
    if isinstance(ck, Sc):
        col, nm = pick_col(I, ref, o, ck, n, st)
        if miss.FORM[0]:
            col = col.map(lambda x: miss.placed(o, x))
        if isinstance(rk, Sc):
            c = constof(rk)
            sps = o.ix.special
            cell = None
            if isinstance(c, int) and c < 0 and -c <= len(sps):
                cell = col.special.get(sps[c], col.cell)
            cell = cell if cell is not None else (col.cell if col.cell is not None else col.all())
            if col.cell is not None and cell.term is not None and not T.is_num(cell.term):
                cell = cell.w(term=T.atom("row", cell.term, c) if isinstance(c, int) else None)
            if miss.ON[0]:
                cell = miss.at((col.cell if col.cell is not None else cell), rk, ck, True)
            return Sc(cell.tag(taint_ord(o) | rk.cell.tags | ref.tags))
        if miss.TST[0] and o.rest is not None and o.rest.cell is not None and T.key_of(o.rest.cell.term) == ("rank",) and not o.cols:
            col = col.map(lambda x: x.w(term=T.atom("rank", miss.term_of(ck.cell))))
        elif miss.ON[0]:
            col = col.map(lambda x: miss.at(x, None, ck, True))
        r = ser_view(I, ref, o, nm, col, n, st)
        if isinstance(rk, SliceV) and all(constof(x) is None for x in (rk.lo, rk.hi, rk.step)):
            if constof(ck) == 0 and o.rest is not None and not o.cols:
                s = st.mut(r.oid)
                s.name = NOC
                s.first = True
            return r
        return ser_iloc(I, r, st.heap[r.oid], rk, n, st)
    # column slice
    g = plain(o)
    g.base = ref.oid
    g.cut = True
    if isinstance(ck, SliceV):
        lo, hi, step = (constof(x) for x in (ck.lo, ck.hi, ck.step))
        if o.rest is None and not o.open and NOC not in (lo, hi, step):
            names = list(o.cols)[slice(lo, hi, step)]
            g.cols = {a: o.cols[a] for a in names}
        elif o.cols and not (lo in (None, 0) and hi is None):
            g.open = True
    else:
        names, lab = None, None
        seq = asobj(I, ck, st)
        if isinstance(seq, Seq) and seq.exact() and all(isinstance(constof(x), int) for x, _ in seq.segs) and o.rest is None:
            names = list(o.cols)
            g.cols = {names[constof(x)]: o.cols[names[constof(x)]] for x, _ in seq.segs if -len(names) <= constof(x) < len(names)}
    r = I.new(st, g, n)
    if isinstance(rk, SliceV) and all(constof(x) is None for x in (rk.lo, rk.hi)):
        return r
    return iloc_get(I, r, st.heap[r.oid], rk, None, n, st)


def row_label_missing(I, o, rk, n, st):
    """definite KeyError for a row label"""
    c = constof(rk)
    if isinstance(c, str) and c not in o.ix.special and not o.open:
        ixc = o.ix.cells[0] if len(o.ix.cells) == 1 else UNK
        if (ixc is None or ixc.lab in ("O", "D", "pos")) and not any(isinstance(s, AbsStr) for s in o.ix.special):
            I.fail("missing-key", n, "row label %r does not exist" % (c,), st=st, name=c)


def pick_row(I, o, col, rk, n, st):
    s = Ser(cell=col.cell, special=col.special, ix=o.ix)
    return ser_row(I, s, rk, n, st)


def loc_get(I, ref, o, rk, ck, n, st):
    full = isinstance(rk, SliceV) and all(constof(x) is None for x in (rk.lo, rk.hi, rk.step))
    if ck is not None and isinstance(ck, (Sc, Top)):
        col, nm = find_col(I, o, ck, n, st)
        if miss.ON[0]:
            col = col.map(lambda x: miss.at(x, rk if isinstance(rk, Sc) else None, None if isinstance(constof(ck), (str, AbsStr)) else ck, False,
                                            miss.base_of(o.ix.cells[0]) if len(o.ix.cells) == 1 else 0, getattr(o, "cbase", 0)))
            if miss.FORM[0] and isinstance(rk, Sc) and not isinstance(constof(rk), (str, AbsStr)) and col.cell is not None:
                return Sc(col.cell.tag(ref.tags | rk.cell.tags))
        if full:
            return ser_view(I, ref, o, nm if nm is not None else (constof(ck) if constof(ck) is not NOC else None), col, n, st)
        if isinstance(rk, (Sc, Top)):
            row_label_missing(I, o, rk, n, st)
            return Sc(pick_row(I, o, col, rk, n, st).tag(ref.tags))
        r = ser_view(I, ref, o, nm, col, n, st)
        if isinstance(rk, SliceV):
            return I.new(st, filt(I, st.heap[r.oid], I.tags_of(rk.lo, st) | I.tags_of(rk.hi, st), n), n)
        return ser_getitem(I, r, st.heap[r.oid], rk, n, st)
    f = o
    if ck is not None and not isinstance(ck, SliceV):
        if is_mask(I, ck, st):
            f = plain(o)
            f.open = bool(o.cols)
        else:
            f = select_cols(I, o, ck, n, st)
    elif isinstance(ck, SliceV) and not all(constof(x) is None for x in (ck.lo, ck.hi)):
        f = plain(o)
        f.open = bool(o.cols)
    if full:
        f = plain(f)
        f.base = ref.oid if ck is None or isinstance(ck, SliceV) else None
        return I.new(st, f, n)
    if isinstance(rk, (Sc, Top)):
        row_label_missing(I, o, rk, n, st)
        c = constof(rk)
        g = row_ser(f, c if isinstance(c, (str, AbsStr)) and (c in f.ix.special or any(is_some(x) and label_may_match(x, c) for x in f.ix.special)) else None)
        kt = I.tags_of(rk, st)
        lab = rk.cell.lab if isinstance(rk, Sc) else None
        ser_row(I, Ser(cell=UNK, ix=f.ix), rk, n, st) if not isinstance(c, (str, AbsStr)) else None
        g = map_ser(g, lambda x: x.tag(kt))
        if miss.ON[0]:
            g = map_ser(g, lambda x: miss.at(x, rk, ck, False, miss.base_of(f.ix.cells[0]) if len(f.ix.cells) == 1 else 0))
        g.name = c if c is not NOC else NOC
        return I.new(st, g, n)
    if isinstance(rk, SliceV):
        t = I.tags_of(rk.lo, st) | I.tags_of(rk.hi, st)
        g = filt(I, f, t, n)
        g.base = ref.oid
        return I.new(st, g, n)
    if is_mask(I, rk, st):
        return I.new(st, filter_rows(I, ref, f, rk, n, st), n)
    seq = asobj(I, rk, st)
    if isinstance(seq, Seq) and seq.exact() and all(isinstance(constof(x), (str, AbsStr)) for x, _ in seq.segs):
        keep = [constof(x) for x, _ in seq.segs]
        g = filt(I, f, EMPTY, n, [s for s in f.ix.special if s not in keep], nomain=True)
        return I.new(st, g, n)
    return I.new(st, filt(I, f, I.tags_of(rk, st), n), n)


def accessor_set(I, mv, key, v, n, st):
    obj = mv.obj
    if isinstance(obj, Un):
        for a in obj.atoms:
            accessor_set(I, MethV(a, mv.name, mv.via), key, v, n, st)
        return
    if not isinstance(obj, Ref) or mv.name not in ACCESSORS:
        return
    o = st.heap[obj.oid]
    parts = split_key(I, key, st)
    I.mutate(obj, n, st, "." + mv.name + "[] assignment", key=constof(parts[0]))
    if isinstance(o, Ser):
        m = st.mut(obj.oid)
        rk = parts[0]
        kt = I.tags_of(rk, st)
        I.opt_stored(v, n)
        if miss.FORM[0]:
            return vec_assign(I, m, rk, v, mv.name in ("iloc", "iat"), n, st)
        cell = as_cell(I, v, st).tag(kt)
        if mv.name in ("iloc", "iat"):
            pos_check(I, rk, n, "row")
            m.cell = store(m.cell, cell)
        else:
            ser_store(I, m, rk, cell, n, st)
        parent_update(I, m, st, cell)
        return
    if not isinstance(o, Frame):
        return
    rk = parts[0]
    ck = parts[1] if len(parts) > 1 else None
    m = st.mut(obj.oid)
    rt = I.tags_of(rk, st) | (I.tags_of(ck, st) if ck is not None else EMPTY)
    vo = asobj(I, v, st)
    if miss.ON[0] and isinstance(rk, SliceV) and any(x[0].name == "triind" for x in I.stack):
        I.event("indstore", n, "rows %s of the indicator := %s" % (T.show(rk.lo.cell.term, 5) if isinstance(rk.lo, Sc) else "?", constof(v)),
                lo=rk.lo, hi=rk.hi, col=ck, value=constof(v), pos=mv.name in ("iloc", "iat"))
    if miss.AVG[0] and isinstance(constof(rk), (str, AbsStr)) and ck is not None:
        vc = as_cell(I, v, st)
        t = miss.term_of(vc)
        c = miss.keyterm(ck, mv.name in ("iloc", "iat"), getattr(o, "cbase", 0))
        I.event("rowstore", n, "%s [%s] := %s" % (constof(rk), "?" if c is None else c if isinstance(c, str) else T.show(c, 5), T.show(t, 12) if t is not None else "?"),
                row=constof(rk), col=c, term=t, facts=st.facts, table=miss.table_name(I, n))
    if miss.FORM[0] and m.rest is not None and m.rest.cell is not None and not isinstance(constof(ck) if ck is not None else None, (str, AbsStr)) \
            and not isinstance(constof(rk), (str, AbsStr)):
        vc = as_cell(I, v, st)
        miss.stored(I, o, rk, ck, mv.name in ("iloc", "iat"), vc, n, st)
        r = store(m.rest.cell, vc.tag(rt))
        m.rest = Col(r.w(term=miss.table_name(I, n) if not miss.isnanconst(vc) else m.rest.cell.term), m.rest.special)
        return
    if miss.is_tri(o) and miss.ON[0]:
        vc = as_cell(I, v, st)
        miss.stored(I, o, rk, ck, mv.name in ("iloc", "iat"), vc, n, st)
        if m.rest is not None and m.rest.cell is not None:
            m.rest = Col(miss.assigned(m.rest.cell, vc), m.rest.special)
        return
    if mv.name in ("iloc", "iat"):
        pos_check(I, rk, n, "row")
        pos_check(I, ck, n, "column")
        fullr = isinstance(rk, SliceV) and all(constof(x) is None for x in (rk.lo, rk.hi))
        cell = as_cell(I, v, st).tag(rt)
        c = constof(ck) if ck is not None else NOC
        if isinstance(c, int) and m.rest is None and not m.open and -len(m.cols) <= c < len(m.cols):
            nm = list(m.cols)[c]
            old = m.cols[nm]
            m.cols[nm] = as_col(I, v, m.ix, st, n) if fullr else Col(store(old.cell, cell), old.special)
            return
        if isinstance(ck, SliceV) and fullr and all(constof(x) is None for x in (ck.lo, ck.hi)):
            for a in m.cols:
                m.cols[a] = m.cols[a].map(lambda _: cell)
            if m.rest is not None:
                m.rest = m.rest.map(lambda _: cell)
            return
        for a in list(m.cols):
            if m.rest is None:
                m.cols[a] = Col(store(m.cols[a].cell, cell), m.cols[a].special)
        if m.rest is not None and m.rest.cell is not None:
            old = m.rest.cell
            nw = store(old, cell)
            if old.rep == "DIFFC":
                nw = nw.w(rep="I" if (c == 0 and fullr and cell.rep == "C") else None)
                if c == 0 and fullr and cell.rep == "I":
                    nw = nw.w(rep="I")
            elif old.term is not None and old.term == cell.term:
                nw = nw.w(term=old.term)
            m.rest = Col(nw, m.rest.special)
        return
    # loc / at
    if ck is None:
        # whole rows
        vcells = None
        if isinstance(vo, Ser):
            vcells = vo
        row_assign(I, m, rk, list(m.cols), m.rest is not None, v, vcells, n, st, rt)
        return
    if isinstance(ck, SliceV):
        row_assign(I, m, rk, list(m.cols), m.rest is not None, v, vo if isinstance(vo, Ser) else None, n, st, rt)
        return
    if isinstance(ck, (Sc, Top)):
        c = constof(ck)
        if c is not NOC and isinstance(c, (str, AbsStr)):
            if c not in m.cols and not m.open:
                m.cols[c] = Col(NANC if m.ix.cells != (None,) else None, {s: NANC for s in m.ix.special})
            row_assign(I, m, rk, [c], False, v, None, n, st, rt)
        else:
            find_col(I, m, ck, n, st)
            row_assign(I, m, rk, [] if m.rest is not None else list(m.cols), m.rest is not None, v, None, n, st, rt)
        return
    names, lab = col_spec(I, ck, st)
    for nm in names or ():
        if nm not in m.cols and not m.open:
            if m.rest is not None and m.restlab in (None, "any"):
                continue
            I.fail("missing-col", n, "column %r does not exist (columns: %s)" % (nm, ", ".join(map(str, list(m.cols)[:12]))), st=st, name=nm)
    vs = None
    if isinstance(vo, Seq) and vo.exact() and len(vo.segs) == len(names or ()):
        for nm, (x, _) in zip(names, vo.segs):
            row_assign(I, m, rk, [nm], False, x, None, n, st, rt)
        return
    row_assign(I, m, rk, [x for x in (names or ()) if x in m.cols], bool(lab), v, vo if isinstance(vo, Ser) else None, n, st, rt)


def some_store(m, c, cell):
    """store in row c; a partly known label is one row of several"""
    if not is_some(c):
        m.special[c] = cell
        return
    old = m.special.get(c, m.cell)
    for s in list(m.special):
        if s != c and label_may_match(s, c):
            m.special[s] = store(m.special[s], cell)
    m.special[c] = store(old, cell) if old is not None else cell


def ser_store(I, m, rk, cell, n, st):
    c = constof(rk)
    if isinstance(c, (str, AbsStr)):
        some_store(m, c, cell)
        if c not in m.ix.special:
            m.ix = m.ix.w(special=m.ix.special + (c,))
        return
    if isinstance(rk, Sc) and rk.cell.lab in ("O", "D") and rk.cell.rep == "beyond":
        # a label outside the index: enlargement
        m.special["%beyond"] = cell
        m.ix = m.ix.w(special=m.ix.special + (("%beyond",) if "%beyond" not in m.ix.special else ()))
        m.cell = m.cell.tag(cell.tags) if m.cell is not None else None
        return
    if isinstance(rk, SliceV) and all(constof(x) is None for x in (rk.lo, rk.hi)):
        m.cell = cell
        m.special = {s: cell for s in m.special}
        return
    ser_row(I, Ser(cell=UNK, ix=m.ix), rk, n, st) if isinstance(rk, Sc) else None
    m.cell = store(m.cell, cell)
    if not isinstance(rk, Sc):
        mo = asobj(I, rk, st)
        for s in list(m.special):
            if isinstance(mo, (Ser, Arr)) and s in mo.special and mo.special[s].const is False:
                continue
            m.special[s] = store(m.special[s], cell)
    elif c is NOC and rk.cell.lab not in ("O", "D", "pos", "sim") and rk.cell.dt in ("str", None):
        for s in list(m.special):
            m.special[s] = store(m.special[s], cell)


def row_assign(I, m, rk, names, rest, v, vser, n, st, tags):
    """store v (or, per column, series vser) in rows rk of the listed columns"""
    c = constof(rk)
    isnew = isinstance(c, (str, AbsStr)) and c not in m.ix.special
    if isnew:
        m.ix = m.ix.w(special=m.ix.special + (c,))
        for a, col in list(m.cols.items()):
            if a not in names:
                m.cols[a] = Col(col.cell, dict(col.special, **{}))
                m.cols[a].special[c] = NANC
        if m.rest is not None and not rest:
            m.rest = Col(m.rest.cell, dict(m.rest.special))
            m.rest.special[c] = NANC
    vo = asobj(I, v, st)
    base = as_cell(I, v, st).tag(tags)
    ixseq = vo if isinstance(vo, Seq) and vo.exact() and len(vo.segs) == len(m.cols) and m.rest is None else None
    for i, nm in enumerate(names):
        cell = base
        if vser is not None:
            if nm in vser.special:
                cell = vser.special[nm].tag(tags)
            elif vser.cell is not None:
                cell = vser.cell.tag(tags)
            else:
                cell = NANC
        elif ixseq is not None and len(names) == len(m.cols):
            cell = as_cell(I, ixseq.segs[i][0], st).tag(tags)
        col = m.cols.get(nm, Col(NANC))
        s = Ser(cell=col.cell, special=dict(col.special), ix=m.ix)
        ser_store(I, s, rk, cell, n, st)
        m.cols[nm] = Col(s.cell, s.special)
        m.ix = s.ix
    if rest and m.rest is not None:
        cell = vser.cell.tag(tags) if vser is not None and vser.cell is not None else base
        s = Ser(cell=m.rest.cell, special=dict(m.rest.special), ix=m.ix)
        if isinstance(c, AbsStr) or isinstance(c, str):
            some_store(s, c, cell)
        else:
            ser_store(I, s, rk, cell, n, st)
        m.rest = Col(s.cell, s.special)
        m.ix = s.ix


# ---- attributes -------------------------------------------------------------
def attr(I, ref, name, n, st):
    o = st.heap[ref.oid]
    if isinstance(o, Frame):
        return frame_attr(I, ref, name, n, st)
    if isinstance(o, Ser):
        return ser_attr(I, ref, o, name, n, st)
    if isinstance(o, Idx):
        return idx_attr(I, ref, o, name, n, st)
    if isinstance(o, Arr):
        return np_.arr_attr(I, ref, name, n, st)
    if isinstance(o, Opq):
        return np_.opq_attr(I, ref, name, n, st)
    if isinstance(o, (Seq, Dct)):
        cls = "dict" if isinstance(o, Dct) else {"gen": None}.get(o.kind, o.kind)
        if cls and cls in I.api["classes"] and name not in I.api["classes"][cls] and not name.startswith("__"):
            I.fail("missing-attr", n, "%s has no attribute '%s'" % (cls, name), attr=name, st=st)
        return MethV(ref, name)
    if isinstance(o, Grp):
        f = asobj(I, o.src, st)
        if isinstance(f, Frame) and name in f.cols and not is_pandas_attr(types_of(o), name):
            return grp_getitem(I, ref, o, k(name), n, st)
        if not is_pandas_attr(types_of(o), name) and not (isinstance(f, Frame) and f.open) and not name.startswith("__"):
            I.fail("missing-attr", n, "group-by object has no attribute '%s'" % name, attr=name, st=st)
        return MethV(ref, name)
    return MethV(ref, name)


def frame_attr(I, ref, name, n, st, plain=False):
    o = st.heap[ref.oid]
    if name in o.cols and not is_pandas_attr("DataFrame", name):
        return frame_getitem(I, ref, o, k(name), n, st)
    if not is_pandas_attr("DataFrame", name):
        if name in ("__class__",):
            return ClsV(o.cls) if o.cls else LibV("pandas.DataFrame")
        if o.open or name.startswith("__") or has_absnames(o):
            return Top(o.tagset())
        I.fail("missing-attr", n, "%s has no attribute or column '%s' (columns: %s)" % (
            o.cls or "data frame", name, ", ".join(map(str, list(o.cols)[:12])) + (" and labels" if o.rest is not None else "")), attr=name, st=st)
    if name == "columns":
        return I.new(st, Idx(ix=cols_ix(o), of=ref.oid, axis=1), n)
    if name == "index":
        ix = o.ix
        if "sim" in row_labs(o) and any(c is not None and c.lab in (None, "pos") for c in ix.cells):
            # the number of a row of a table of simulations tells which simulation it is in
            ix = Ix(ix.names, tuple(c.tag({"simpos"}) if c is not None and c.lab in (None, "pos") else c for c in ix.cells), ix.special)
        return I.new(st, Idx(ix=ix, of=ref.oid, axis=0), n)
    if name == "axes":
        return I.seq(st, [I.new(st, Idx(ix=o.ix, of=ref.oid, axis=0), n), I.new(st, Idx(ix=cols_ix(o), of=ref.oid, axis=1), n)], "list", n)
    if name == "values":
        a = np_.frame_arr(I, o, "values")
        a.base = ref.oid
        a.ro = o.ro
        a.cell = a.cell.tag(ref.tags)
        r = I.new(st, a, n)
        return miss.positional(I, o, r, st) if miss.FORM[0] else r
    if name == "shape":
        nr = Sc(Cell(EMPTY, D0, dt="pyint", term=py.size_term(o.ix)))
        nc = k(len(o.cols)) if o.rest is None and not o.open else Sc(Cell(EMPTY, D0, dt="pyint", term=py.size_term(cols_ix(o)) if not o.cols else None))
        return I.seq(st, [nr, nc], node=n)
    if name == "size":
        tr, tc = py.size_term(o.ix), py.size_term(cols_ix(o)) if not o.cols and o.rest is not None else None
        return Sc(Cell(EMPTY, D0, dt="pyint", term=T.mul(tr, tc) if tr is not None and tc is not None else None))
    if name == "ndim":
        return k(2)
    if name == "T":
        return transpose(I, ref, o, n, st)
    if name == "empty":
        return sc(o.tagset() & frozenset(), dt="bool")
    if name in ACCESSORS or name in ("plot", "style"):
        return MethV(ref, name)
    if name in ("dtypes",):
        return I.new(st, Ser(cell=Cell(dt="dtype"), ix=cols_ix(o)), n)
    if name in ("attrs", "flags"):
        return TOP
    return MethV(ref, name)


def transpose(I, ref, o, n, st):
    g = Frame(ix=cols_ix(o), restlab=o.ix.cells[0].lab if len(o.ix.cells) == 1 and o.ix.cells[0] is not None else None)
    g.rest = Col(as_cell(I, ref, st), {a: c.all() for a, c in o.cols.items()})
    if o.rest is not None:
        g.rest.cell = o.rest.all()
    else:
        g.rest.cell = None
    for s in o.ix.special:
        c = Col(o.rest.special.get(s) if o.rest is not None else None, {a: x.special.get(s, x.cell) for a, x in o.cols.items()})
        g.cols[s] = c
    if o.ix.cells == (None,):
        g.rest = None
    g.base = ref.oid
    return I.new(st, g, n)


def ser_attr(I, ref, o, name, n, st):
    if not is_pandas_attr("Series", name):
        if name in [s for s in o.special if isinstance(s, str)]:
            return Sc(o.special[name].tag(ref.tags))
        if name.startswith("__"):
            return TOP
        if any(isinstance(s, AbsStr) for s in o.special) or o.ix.cells and o.ix.cells[0] is not None and o.ix.cells[0].lab not in ("O", "D", "pos", "sim"):
            return Top(o.tagset())
        I.fail("missing-attr", n, "series has no attribute or label '%s' (labels: %s)" % (name, ", ".join(map(str, list(o.special)[:12]))), attr=name, st=st)
    if name in o.special and name not in ("index", "values", "name", "size", "shape", "loc", "iloc", "at", "iat", "map", "apply") and False:
        return Sc(o.special[name])
    if name in ("values", "array"):
        a = Arr(cell=o.cell if o.cell is not None else o.all(), special=dict(o.special), ix=o.ix, ro=o.ro, base=ref.oid)
        a.cell = a.cell.tag(ref.tags)
        if "rev" in o.ro:
            a.cell, a.ro = np_.rev_cell(a.cell), o.ro - {"rev"}
        if o.cell is None and o.special and o.ix.cells == (None,):
            a.exact = tuple(o.special.values())
        r = I.new(st, a, n)
        return miss.positional(I, o, r, st) if miss.FORM[0] else r
    if name == "index":
        return I.new(st, Idx(ix=o.ix, of=ref.oid, axis=0), n)
    if name == "name":
        if o.name is NOC:
            return sc()
        return k(o.name) if o.name is None or isinstance(o.name, (str, int, float, AbsStr)) else sc()
    if name == "size":
        return Sc(Cell(EMPTY, D0, dt="pyint", term=py.size_term(o.ix)))
    if name == "shape":
        return I.seq(st, [Sc(Cell(EMPTY, D0, dt="pyint", term=py.size_term(o.ix)))], node=n)
    if name == "T":
        return ref
    if name == "ndim":
        return k(1)
    if name == "empty":
        return sc(dt="bool")
    if name in ("is_monotonic_increasing", "is_unique", "hasnans", "is_monotonic_decreasing"):
        return sc(o.tagset(), dt="bool")
    if name in ("dtype", "dtypes"):
        return I.new(st, Opq(typ="dtype"), n)
    return MethV(ref, name)


def idx_attr(I, ref, o, name, n, st):
    if not is_pandas_attr("Index", name) and not is_pandas_attr("MultiIndex", name):
        if name.startswith("__"):
            return TOP
        I.fail("missing-attr", n, "index has no attribute '%s'" % name, attr=name, st=st)
    ix = o.ix
    if name == "name":
        nm = ix.names[0] if len(ix.names) == 1 else NOC
        return sc(dt="str") if nm is NOC else k(nm) if nm is None or isinstance(nm, (str, int, AbsStr)) else sc()
    if name == "names":
        return I.seq(st, [sc(dt="str") if x is NOC else k(x) for x in ix.names], "list", n)
    if name in ("values", "array"):
        a = Arr(cell=ix.cells[0] if len(ix.cells) == 1 and ix.cells[0] is not None else UNK, ix=ix)
        a.special = {s: const_cell(s) for s in ix.special}
        if ix.cells == (None,):
            a.exact = tuple(const_cell(s) for s in ix.special)
            a.cell = join_all(a.exact) or UNK
        return I.new(st, a, n)
    if name == "size":
        if ix.cells == (None,):
            return k(len(ix.special))
        return Sc(Cell(EMPTY, D0, dt="pyint", term=py.size_term(ix)))
    if name == "shape":
        return I.seq(st, [sc(dim=D0, dt="pyint")], node=n)
    if name in ("is_monotonic_increasing", "is_unique", "has_duplicates", "empty", "is_monotonic_decreasing"):
        return sc(dt="bool")
    if name in ("dtype",):
        return I.new(st, Opq(typ="dtype"), n)
    if name == "nlevels":
        return k(len(ix.cells))
    return MethV(ref, name)


def set_attr(I, ref, name, v, n, st):
    o = st.heap[ref.oid]
    if isinstance(o, Frame):
        if name in o.cols and not is_pandas_attr("DataFrame", name):
            return frame_setitem(I, ref, o, k(name), v, n, st)
        if name in ("columns", "index"):
            I.mutate(ref, n, st, "assignment to ." + name)
            m = st.mut(ref.oid)
            if name == "index":
                nix = ix_from(I, v, st)
                if m.ix.special and not nix.special:
                    nix = nix.w(special=m.ix.special)
                if miss.FORM[0]:
                    miss.relabelled(I, m, nix, m.ix)
                m.ix = nix
                repos(m)
                return
            names, lab = col_spec(I, v, st)
            vo = asobj(I, v, st)
            if isinstance(vo, Idx):
                m.colsname = vo.ix.names[0] if len(vo.ix.names) == 1 else NOC
            else:
                m.colsname = None
            if m.multi:
                m.multi = False
                m.restlab = vo.ix.cells[0].lab if isinstance(vo, Idx) and vo.ix.cells and vo.ix.cells[0] is not None else lab
                return
            if names is not None and lab is None and m.rest is None and not m.open:
                if len(names) != len(m.cols):
                    I.fail("type-error", n, "%d column names for %d columns" % (len(names), len(m.cols)), st=st)
                m.cols = dict(zip(names, m.cols.values()))
                return
            if lab is not None and not names and m.rest is None:
                m.rest = list(m.cols.values())[0] if m.cols else Col(UNK)
                m.cols, m.restlab = {}, lab
                return
            if lab is not None and m.rest is not None:
                m.restlab = lab
                if miss.FORM[0]:
                    x = vo.ix.cells[0] if isinstance(vo, Idx) and vo.ix.cells else as_cell(I, v, st)
                    m.cbase = miss.base_of(x) if x is not None else 0
                    miss.relabelled(I, m, vo.ix if isinstance(vo, Idx) else Ix((None,), (x,), ()))
                if len(names) == len(m.cols):
                    m.cols = dict(zip(names, m.cols.values()))
                return
            if names and m.rest is not None:
                m.open = True
            return
        I.mutate(ref, n, st, "assignment to ." + name)
        st.mut(ref.oid).attrs[name] = v
        return
    if isinstance(o, Ser):
        I.mutate(ref, n, st, "assignment to ." + name)
        m = st.mut(ref.oid)
        if name == "name":
            m.name = constof(v)
        elif name == "index":
            nix = ix_from(I, v, st)
            if len(nix.special) == len(m.special):
                m.special = dict(zip(nix.special, m.special.values()))
            if miss.FORM[0]:
                miss.relabelled(I, m, nix, m.ix)
            m.ix = nix
        return
    if isinstance(o, Idx):
        m = st.mut(ref.oid)
        if name in ("name", "names"):
            c = constof(v)
            if name == "names":
                segs, _ = iterate(I, v, n, st)
                nm = tuple(constof(x) for x, _ in segs)
            else:
                nm = (c,)
            m.ix = m.ix.w(names=nm)
            if o.of is not None and o.of in st.heap:
                I.mutate(Ref(o.of), n, st, "axis name assignment")
                f = st.mut(o.of)
                if o.axis == 1 and isinstance(f, Frame):
                    f.colsname = nm[0] if len(nm) == 1 else nm
                elif o.axis == 0:
                    f.ix = f.ix.w(names=nm)
        return
    if isinstance(o, Arr):
        I.mutate(ref, n, st, "assignment to ." + name)


# ---- methods ----------------------------------------------------------------
def method(I, mv, args, kwargs, n, st):
    obj, name = mv.obj, mv.name
    if isinstance(obj, Un):
        return I.per_atom(obj, lambda a, s: method(I, MethV(a, name, mv.via), args, kwargs, n, s), st)
    if name == "%frame_init":
        return frame_init(I, obj, args, kwargs, n, st)
    if name.startswith("%super"):
        if name == "%super__setattr__" and len(args) == 2 and isinstance(constof(args[0]), str) and isinstance(obj, Ref):
            o = st.heap[obj.oid]
            if isinstance(o, (Frame, Inst)):
                if o.owner:
                    I.attr_overwrite(obj, constof(args[0]), args[1], n, st)
                st.mut(obj.oid).attrs[constof(args[0])] = args[1]
            return NONE
        if name in ("%super__init__", "%super__init_subclass__", "%super__setattr__"):
            return NONE
        return TOP
    if isinstance(obj, Sc):
        return py.scalar_method(I, obj, name, args, kwargs, n, st)
    if isinstance(obj, Top) or not isinstance(obj, Ref):
        return Top(I.tags_of(obj, st) | alltags(I, args, kwargs, st))
    o = st.heap[obj.oid]
    if mv.via in ("str", "dt", "cat"):
        return str_accessor(I, obj, o, name, args, kwargs, n, st)
    if isinstance(o, Seq):
        return py.seq_method(I, obj, name, args, kwargs, n, st)
    if isinstance(o, Dct):
        return py.dict_method(I, obj, name, args, kwargs, n, st)
    if isinstance(o, Arr):
        r = np_.arr_method(I, obj, name, args, kwargs, n, st)
        return miss.kept(I, o, name, r, obj, st, args, kwargs) if miss.FORM[0] else r
    if isinstance(o, Opq):
        return np_.opq_method(I, obj, name, args, kwargs, n, st)
    if isinstance(o, Rng):
        return np_.draw(I, obj, name, args, kwargs, n, st)
    cls = types_of(o)
    if cls is None:
        return Top(I.tags_of(obj, st) | alltags(I, args, kwargs, st))
    I.opcount[cls + "." + name] = I.opcount.get(cls + "." + name, 0) + 1
    sig = I.api["classes"][cls].get(name) if name in I.api["classes"][cls] else None
    if sig is not None:
        check_sig(I, sig, "%s.%s" % (cls, name), args, kwargs, n, st)
    # positional arguments by name
    kw = dict(kwargs)
    if sig:
        pos = [p[0] for p in sig if p[1] in ("p", "n")]
        for p, v in zip(pos, args):
            kw.setdefault(p, v)
    if isinstance(o, Frame):
        r = frame_method(I, obj, o, name, args, kw, n, st)
    elif isinstance(o, Ser):
        r = ser_method(I, obj, o, name, args, kw, n, st)
    elif isinstance(o, Idx):
        r = idx_method(I, obj, o, name, args, kw, n, st)
    else:
        r = grp_method(I, obj, o, name, args, kw, n, st)
    if miss.TST[0] and name in ("rename", "to_frame", "set_axis"):
        miss.named_rank(I, o, list(kw.values()), n, st)
    if miss.FORM[0] and r is not None:
        r = miss.kept(I, o, name, r, obj, st, args, kw)
    if r is None:
        I.unmodelled[cls + "." + name] = I.unmodelled.get(cls + "." + name, 0) + 1
        return Top(I.tags_of(obj, st) | alltags(I, args, kwargs, st))
    if truthy(kw.get("inplace")) is True and isinstance(r, Ref) and isinstance(o, (Frame, Ser)):
        I.mutate(obj, n, st, "%s(inplace=True)" % name)
        res = st.heap[r.oid]
        m = st.mut(obj.oid)
        if type(res) is type(m):
            for f, _ in type(m).fields:
                if f not in ("cls", "attrs", "frame"):
                    object.__setattr__(m, f, getattr(res, f))
        return NONE
    if isinstance(r, Ref) and obj.tags and r.oid != obj.oid:
        r = Ref(r.oid, r.tags | obj.tags)
    return r


def str_accessor(I, ref, o, name, args, kwargs, n, st):
    t = alltags(I, args, kwargs, st)
    if isinstance(o, (Ser,)):
        return I.new(st, map_ser(o, lambda c: Cell(c.tags | t, dt="str" if name not in ("contains", "startswith", "endswith", "isdigit", "match") else "bool")), n)
    if isinstance(o, Idx):
        return I.new(st, Arr(cell=Cell(t, dt="str" if name not in ("contains", "startswith", "endswith") else "bool")), n)
    return Top(t | I.tags_of(ref, st))


OPM = {"add": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult", "div": "Div", "divide": "Div", "truediv": "Div",
       "pow": "Pow", "mod": "Mod", "floordiv": "FloorDiv", "radd": "Add", "rmul": "Mult"}
ROPM = {"rsub": "Sub", "rdiv": "Div", "rtruediv": "Div", "rpow": "Pow"}
CMPM = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}


def along_of(o, axis1):
    """label kind along which a running operation moves"""
    if isinstance(o, Frame):
        if axis1:
            return o.restlab if o.rest is not None and not o.cols else None
    c = o.ix.cells[0] if len(o.ix.cells) == 1 else None
    return c.lab if c is not None else None


def running(I, name, c, n, st, along, kw, grouped=EMPTY, obj=None):
    """cell of a running operation along one direction"""
    periods = constof(kw.get("periods", k(1)))
    if name in ("cumsum", "cumprod"):
        r = cum_cell(I, name, c, n, st, obj, along=along)
        return r.tag({miss.GAP}) if miss.has(c) and constof(kw.get("skipna", TRUE)) is False else r
    if name in ("cummax", "cummin"):
        return Cell(c.tags, dim_norm(c.dim) if c.dim not in (None, Z) else c.dim, None, c.rep if c.rep == "C" else None, None, NOC, "num")
    if name == "diff":
        rep = None
        lab = None
        if c.rep == "C" and along == "D" and periods == 1:
            rep = "DIFFC"
        if c.lab in ("O", "D"):
            lab = c.lab + "step"
        return Cell(c.tags | {miss.GAP} if miss.has(c) else c.tags, dim_norm(c.dim) if c.dim not in (None, Z) else c.dim, lab, rep, None, NOC, "num")
    if name == "shift":
        rep = None
        fv = kw.get("fill_value")
        if c.rep in ("C", "I") and along == "D":
            if periods == 1:
                rep = "SH" + c.rep
                if c.rep == "C" and fv is not None and constof(fv) == 0:
                    rep = "SHC0"
            elif periods == -1:
                rep = "NX" + c.rep
        if miss.TST[0] and along is not None:
            I.event("moved", n, "%s|%s|%s" % (T.show(c.term, 3) if c.term is not None else "?", periods, along), term=c.term, by=periods, lab=c.lab, along=along)
        t = T.atom("SHIFT", c.term, along or "", periods if isinstance(periods, int) else "?") if c.term is not None and not T.is_num(c.term) else c.term
        if miss.has(c):
            c = miss.less(c, miss.MISS).tag({miss.SH} | ({miss.GAP} if fv is not None and constof(fv) is not NOC and miss.isnum(fv.cell) else EMPTY)
                                            if along == "D" else {miss.SH})
        return Cell(c.tags, c.dim, c.lab, rep, t, NOC, c.dt)
    if name == "pct_change":
        return Cell(c.tags, D0, dt="num")
    if name == "rank":
        opt = {a: constof(v) for a, v in kw.items()}
        if miss.TST[0]:
            I.event("ranked", n, "%s|%s" % (T.show(c.term, 3) if c.term is not None else "?", miss.known_rows(obj.ix) if isinstance(obj, Ser) else "?"), term=c.term, rows=miss.known_rows(obj.ix) if isinstance(obj, Ser) else "?", opt=tuple(sorted(opt.items(), key=str)))
            return Cell(c.tags | {"rk:%s" % miss.known_rows(obj.ix) if isinstance(obj, Ser) else "rk:?"}, D0, dt="num", term=T.atom("rank") if isinstance(obj, Ser) else None)
        return Cell(c.tags, D0, dt="num")
    if name in ("ffill", "bfill"):
        if miss.ON[0]:
            t = miss.less(c, miss.MISS, miss.SH)
            if miss.has(c) and (name == "bfill" or along != "D"):
                t = t.tag({miss.ZEROED})
            elif miss.has(c):
                t = t.tag({miss.CARRY})
            return t.w(term=T.atom(name, along or "?", c.term) if c.term is not None else None)
        return c.w(term=None)
    return Cell(c.tags)


def fn_apply(I, f, v, n, st, extra=()):
    return I.call(f, [v] + list(extra), {}, n, st)


def frame_method(I, ref, o, name, args, kw, n, st):
    tags = alltags(I, list(args), kw, st)
    new = lambda g: I.new(st, g, n)
    ax1 = isaxis1(kw.get("axis"))
    if name in ("from_dict", "from_records"):
        return pd_call(I, "DataFrame." + name, list(args), {a: b for a, b in kw.items() if a != "data"} if args else kw, n, st)
    if name == "copy":
        g = o.clone()
        g.owner, g.site = EMPTY, None
        g.base = ref.oid if "deep" in kw and truthy(kw["deep"]) is not True else None
        if o.cls is not None:
            g.cls, g.attrs = None, {}
        return new(g)
    if name in ("to_string", "to_csv", "to_html", "to_markdown", "to_latex", "to_json", "info", "to_excel", "to_pickle", "to_parquet"):
        if name not in ("to_string", "info") and args and args[0] != NONE or "buf" in kw and kw["buf"] != NONE or "path_or_buf" in kw and kw["path_or_buf"] != NONE:
            I.event("file-write", n, "writes a table", path=args[0] if args else None, tags=I.tags_of(args[0], st) if args else EMPTY)
        if "formatters" in kw and isinstance(asobj(I, kw["formatters"], st), Dct):
            pass
        return sc(dt="str")
    if name == "sample":
        return sampled(I, new(filt(I, o, tags, n)), args, kw, n, st)
    if name in ("head", "tail", "nlargest", "nsmallest", "truncate"):
        return new(filt(I, o, tags | taint_ord(o), n))
    if name in OPM:
        return I.binop(OPM[name], ref, args[0] if args else kw.get("other"), n, st)
    if name in ROPM:
        return I.binop(ROPM[name], args[0] if args else kw.get("other"), ref, n, st)
    if name in CMPM:
        return I.compare(CMPM[name], ref, args[0] if args else kw.get("other"), n, st)
    if name == "to_frame":
        return ref
    if name == "groupby":
        return groupby(I, ref, o, kw, n, st)
    if name in ("sort_values", "sort_index"):
        return sort_frame(I, ref, o, name, kw, n, st)
    if name == "pivot" or name == "pivot_table":
        return pivot(I, ref, o, kw, n, st, name)
    if name == "unstack":
        return new(Frame(open=True, rest=Col(as_cell(I, ref, st))))
    if name in ("rename_axis",):
        return rename_axis(I, ref, o, kw, n, st)
    if name == "astype":
        return astype(I, ref, o, args[0] if args else kw.get("dtype"), n, st)
    if name in ("apply", "agg", "aggregate"):
        f = args[0] if args else kw.get("func")
        if name != "apply" and isinstance(constof(f), str):
            return frame_method(I, ref, o, constof(f), [], {a: b for a, b in kw.items() if a != "func"}, n, st)
        return frame_apply(I, ref, o, f, ax1, kw, n, st)
    if name in ("map", "applymap", "transform") and (args or "func" in kw):
        f = args[0] if args else kw["func"]
        if not callable_v(f):
            return None
        g = plain(o)
        def mc(c):
            return as_cell(I, fn_apply(I, f, Sc(c), n, st), st)
        g.cols = {a: c.map(mc) for a, c in o.cols.items()}
        g.rest = o.rest.map(mc) if o.rest is not None else None
        return new(g)
    if name == "pipe" and args:
        return I.call(args[0], [ref] + list(args[1:]), {a: b for a, b in kw.items() if a != "func"}, n, st)
    if name in ("abs", "round", "isnull", "isna", "notnull", "notna"):
        if name == "round":
            return lift(I, [ref], lambda c: rounded(I, c, n, st), n, st)
        return lift(I, [ref], lambda c: cell_unary(I, name, c, n), n, st)
    if name == "clip":
        return np_.clip_val(I, ref, kw.get("lower"), kw.get("upper"), n, st)
    if name in CUM:
        along = along_of(o, ax1)
        t = EMPTY
        if not ax1 and name not in ("rank",):
            t = run_taint(I, o, None)
        elif ax1:
            t = EMPTY
        def rc(c):
            t2 = t
            if "simv" in c.tags and not ax1 and name != "rank":
                t2 = t2 | {"xsim"}
            return running(I, name, c, n, st, along, kw).tag(t2 | tags)
        return new(map_frame(o, rc))
    if name in RED:
        return frame_reduce(I, ref, o, name, ax1, kw, n, st)
    if name in ("dropna",):
        return dropna(I, ref, o, kw, n, st)
    if name == "fillna":
        v = kw.get("value")
        if v is None:
            return new(plain(o))
        vo = asobj(I, v, st)
        if isinstance(vo, Dct):
            g = plain(o)
            for a, x in vo.items.items():
                if a in g.cols:
                    cc = as_cell(I, x, st)
                    g.cols[a] = g.cols[a].map(lambda c: fill_cell(c, cc))
            return new(g)
        return lift(I, [ref, v], fill_cell, n, st)
    if name in ("where", "mask"):
        other = kw.get("other", k(NAN))
        cond = kw.get("cond")
        if cond is None:
            return None
        if name == "mask":
            return lift(I, [cond, ref, other], lambda c, x, y: np_.sel_cell(I, c, y, x, n), n, st)
        return lift(I, [cond, ref, other], lambda c, x, y: np_.sel_cell(I, c, x, y, n), n, st)
    if name == "drop":
        return drop(I, ref, o, kw, n, st)
    if name == "drop_duplicates":
        g = plain(o)
        key = kw.get("subset")
        if "ord" in o.ro and key is not None:
            I.event("rows", n, "keeps one record per key of a table")
        t = frozenset(["rowdup"]) if "dup" in o.ro and has_amount(o) else EMPTY
        if "ord" in o.ro and has_amount(o):
            t = t | {"roworder"}
        names, other = col_spec(I, key, st) if key is not None and not isinstance(key, Un) else ([], None)
        simcol = [a for a, c in o.cols.items() if c.cell is not None and c.cell.lab == "sim"] if isinstance(o, Frame) else []
        one = simcol and names and other is None and not set(names) & set(simcol)
        # one record is kept over all simulations
        g = map_frame(o, lambda c: c.tag(t | {"xsim"} if one and "simv" in c.tags else t))
        if key is not None:
            for a in atoms_of(key):
                if isinstance(a, Sc):
                    need_col(I, ref, a, n, st)
        return new(g)
    if name in ("duplicated",):
        return new(Ser(cell=Cell(tags, dt="bool"), ix=o.ix))
    if name == "reset_index":
        return reset_index(I, ref, o, kw, n, st)
    if name == "set_index":
        return set_index(I, ref, o, kw, n, st)
    if name == "rename":
        return rename(I, ref, o, kw, n, st)
    if name in ("merge", "join"):
        if name == "merge":
            return merge(I, ref, kw.get("right"), kw, n, st)
        kw2 = dict(kw)
        kw2["how"] = kw.get("how", k("left"))
        if "on" in kw2 and kw2["on"] != NONE:
            kw2["left_on"] = kw2.pop("on")
        else:
            kw2["left_index"] = TRUE
            kw2.pop("on", None)
        kw2["right_index"] = TRUE
        kw2["suffixes"] = I.seq(st, [kw.get("lsuffix", k("")), kw.get("rsuffix", k(""))], node=n)
        return merge(I, ref, kw.get("other"), kw2, n, st)
    if name == "melt":
        return melt(I, ref, o, kw, n, st)
    if name == "stack":
        return new(Ser(cell=as_cell(I, ref, st), ix=Ix((NOC, NOC), (o.ix.cells[0] if o.ix.cells else UNK, Cell(lab=o.restlab)), ())))
    if name in ("reindex", "reindex_like", "align"):
        g = plain(o)
        fv = as_cell(I, kw["fill_value"], st) if "fill_value" in kw else NANC
        idx = kw.get("index", kw.get("labels"))
        colsv = kw.get("columns")
        if idx is not None and idx != NONE and not (ax1 and "labels" in kw):
            g.ix = ix_from(I, idx, st)
        elif ax1 and "labels" in kw:
            colsv = kw["labels"]
        if colsv is not None and colsv != NONE:
            names, lab = col_spec(I, colsv, st)
            ng = {}
            for c in names or ():
                ng[c] = g.cols.get(c, Col(fv))
            if names or not lab:
                g.cols = ng
        return new(g)
    if name == "replace":
        keep = missing_key(args, kw)
        if miss.FORM[0] and o.rest is not None and o.rest.cell is not None and T.key_of(o.rest.cell.term) == ("a2aind",) and constof(kw.get("to_replace", NONE)) == 0 \
                and miss.isnanconst(as_cell(I, kw.get("value", NONE), st)):
            keep = True
        return new(map_frame(o, lambda c: c.w(term=c.term if keep else None).tag(tags)))
    if name == "assign":
        g = plain(o)
        r = new(g)
        for a, v in kw.items():
            if isinstance(v, (FnV, PartV, LibV, MethV)):
                v = I.call(v, [r], {}, n, st)
            frame_setitem(I, r, st.heap[r.oid], k(a), v, n, st)
        return r
    if name == "insert":
        I.mutate(ref, n, st, "insert column")
        m = st.mut(ref.oid)
        c = constof(kw.get("column", NONE))
        if c is not NOC:
            col = as_col(I, kw.get("value", TOP), m.ix, st, n)
            m.cols = dict([(c, col)] + list(m.cols.items())) if constof(kw.get("loc", NONE)) == 0 else dict(list(m.cols.items()) + [(c, col)])
        return NONE
    if name == "pop":
        I.mutate(ref, n, st, "pop column")
        r = frame_getitem(I, ref, o, args[0], n, st)
        st.mut(ref.oid).cols.pop(constof(args[0]), None)
        return r
    if name == "update":
        I.mutate(ref, n, st, "update")
        m = st.mut(ref.oid)
        oo = asobj(I, kw.get("other"), st)
        if isinstance(oo, Frame):
            for a, c in oo.cols.items():
                if a in m.cols:
                    m.cols[a] = dom.col_join(m.cols[a], c)
        return NONE
    if name == "isin":
        return lift(I, [ref], lambda c: Cell(c.tags | tags, dt="bool"), n, st)
    if name == "query":
        return new(filt(I, o, tags, n))
    if name == "eval":
        return Top(tags)
    if name == "get":
        c = constof(kw.get("key", NONE))
        if c in o.cols:
            return frame_getitem(I, ref, o, k(c), n, st)
        return kw.get("default", NONE) if not o.open else TOP
    if name in ("items", "iteritems"):
        segs = []
        if o.rest is not None:
            segs.append((I.seq(st, [Sc(Cell(lab=o.restlab, dt="label")), ser_view(I, ref, o, None, o.rest, n, st)], node=n), True))
        for a, c in o.cols.items():
            segs.append((I.seq(st, [k(a), ser_view(I, ref, o, a, c, n, st)], node=n), False))
        return new(Seq(kind="gen", segs=segs))
    if name in ("iterrows", "itertuples"):
        segs = []
        sps = [None] + list(o.ix.special) if o.ix.cells != (None,) else list(o.ix.special)
        for s in sps:
            row = row_ser(o, s)
            lab = Sc(o.ix.cells[0]) if s is None and o.ix.cells[0] is not None else k(s)
            if name == "iterrows":
                segs.append((I.seq(st, [lab, new(row)], node=n), s is None))
            else:
                idxv = truthy(kw.get("index"))
                if idxv is not False:
                    row.special = dict([("Index", lab.cell)] + list(row.special.items()))
                nm = kw.get("name")
                vals = [Sc(c) for c in row.special.values()] + ([Sc(row.cell)] if row.cell is not None else [])
                if nm == NONE:
                    segs.append((I.seq(st, vals, node=n), s is None))
                else:
                    segs.append((new(row), s is None))
        return new(Seq(kind="gen", segs=segs))
    if name == "keys":
        return I.new(st, Idx(ix=cols_ix(o), of=ref.oid, axis=1), n)
    if name in ("to_numpy",):
        a = np_.frame_arr(I, o, "values")
        a.base = ref.oid
        return new(a)
    if name == "to_dict":
        orient = constof(kw.get("orient", k("dict")))
        if orient in ("list", "dict", "series"):
            d = Dct()
            for a, c in o.cols.items():
                d.items[a] = new(Seq(kind="list", segs=[(Sc(c.all()), True)])) if orient == "list" else new(Dct(rest=Sc(c.all())))
            if o.rest is not None:
                d.rest = TOP
            return new(d)
        if orient == "records":
            d = Dct(items={a: Sc(c.all()) for a, c in o.cols.items()})
            return new(Seq(kind="list", segs=[(new(d), True)]))
        return Top(o.tagset())
    if name in ("transpose",):
        return transpose(I, ref, o, n, st)
    if name == "squeeze":
        return None
    if name == "last_valid_index" or name == "first_valid_index":
        return Sc(o.ix.cells[0] or UNK)
    if name in ("memory_usage", "plot", "hist", "boxplot"):
        return TOP
    if name == "equals":
        return sc(tags | o.tagset(), dt="bool")
    if name in ("mode", "describe", "corr", "cov", "rolling", "expanding", "resample", "ewm", "dot", "explode", "xs", "filter", "select_dtypes",
                "nsmallest", "combine_first", "interpolate", "compare", "swaplevel", "droplevel", "add_prefix", "add_suffix", "convert_dtypes", "infer_objects"):
        if name in ("convert_dtypes", "infer_objects"):
            return new(plain(o))
        if name == "filter" and kw.get("items") is not None:
            return new(select_cols(I, o, kw["items"], n, st))
        return Top(tags | o.tagset() | over_rows(name, o.tagset()))
    return None


def has_amount(o):
    return any(c.dim == D1 for c in o.cells())


def callable_v(f):
    return isinstance(f, (FnV, LibV, MethV, PartV)) or isinstance(f, Un)


def missing_key(args, kw):
    """replace(nan/inf, x): changes missing entries only"""
    c = constof(args[0]) if args else constof(kw.get("to_replace", TOP))
    return isinstance(c, float) and (c != c or c in (float("inf"), float("-inf")))


def fill_cell(c, v):
    r = fill_cell_(c, v)
    return miss.filled(r, c, v) if miss.ON[0] else r


def fill_cell_(c, v):
    if c.const is not NOC and isinstance(c.const, float) and c.const != c.const:
        return v.tag(c.tags)
    r = cell_join(c, v)
    rep = r.rep
    if c.rep == "DIFFC" and v.rep == "C":
        rep = "I"
    if c.rep == "SHC" and v.const == 0:
        rep = "SHC0"
    if c.lab and v.const is not NOC:
        return r.w(rep=rep, lab=c.lab, term=None)
    return r.w(rep=rep, term=None if c.term != v.term else c.term)


def run_taint(I, o, keys):
    t = set()
    if "ord" in o.ro:
        t.add("roworder")
    return frozenset(t)


def frame_reduce(I, ref, o, name, ax1, kw, n, st):
    tags = alltags(I, [], kw, st)
    if ax1:
        # across columns
        def acc(cells, along):
            c = join_all([x for x in cells if x is not None]) or UNK
            r = red_cell(I, name, c, n, whole=False)
            r = r.w(term=T.linear("SUM", c.term, "allD") if miss.FORM[0] and name == "sum" and along == "D" and not o.cols and not o.cut and not T.is_num(c.term) else None)
            if name == "sum" and along == "D":
                r = r.w(rep="C" if c.rep == "I" else None)
            if name in ("idxmax", "idxmin"):
                r = Cell(c.tags, lab=o.restlab)
            # an any/all across columns with a constant
            return r.tag(tags)
        allc = [c.cell for c in o.cols.values()] + ([o.rest.cell] if o.rest is not None else [])
        along = o.restlab if not o.cols else None
        g = Ser(ix=o.ix)
        g.name = None
        g.cell = acc(allc, along) if o.ix.cells != (None,) else None
        if len(o.cols) == 2 and o.rest is None and name == "sum":
            a, b = list(o.cols.values())
            if a.cell is not None and b.cell is not None:
                g.cell = cell_binop(I, "Add", a.cell, b.cell, n).tag(tags)
        for s in o.ix.special:
            g.special[s] = acc([c.special.get(s, c.cell) for c in o.cols.values()] + ([o.rest.special.get(s, o.rest.cell)] if o.rest is not None else []), along)
        g.ro = o.ro
        return I.new(st, g, n)
    rt = rows_tok(o)
    dup = EMPTY
    if "dup" in o.ro and name not in ("sum", "max", "min", "any", "all", "nunique"):
        dup = frozenset(["rowdup"])
    if "ord" in o.ro and name in ("first", "last", "idxmax", "idxmin"):
        dup = dup | {"roworder"}
    oc = o.ix.cells[0] if len(o.ix.cells) == 1 else None
    def red(c):
        if c is None:
            return None
        r = red_cell(I, name, c, n, rt)
        if name in ("idxmax", "idxmin"):
            r = Cell(c.tags, lab=oc.lab if oc is not None else None)
        return r.tag(tags | dup)
    def redcol(c):
        cs = [x for x in [c.cell] + list(c.special.values()) if x is not None]
        if len(cs) > 1:
            r = red(join_all(cs))
            return r.w(term=None)
        return red(cs[0]) if cs else UNK
    ix = cols_ix(o)
    g = Ser(ix=ix, special={a: redcol(c) for a, c in o.cols.items()}, cell=redcol(o.rest) if o.rest is not None else (UNK if o.open else None))
    g.name = None
    if name == "quantile" and "q" in kw and isinstance(asobj(I, kw["q"], st), (Seq, Arr)):
        f = Frame(open=False, cols={a: Col(c.w(term=None)) for a, c in g.special.items()})
        return I.new(st, f, n)
    return I.new(st, g, n)


def sort_frame(I, ref, o, name, kw, n, st):
    g = plain(o)
    if name == "sort_values":
        by = kw.get("by")
        names = []
        if by is not None:
            if isinstance(by, Sc):
                names = [by]
            else:
                names = [x for x, _ in iterate(I, by, n, st)[0]]
        labs = set()
        for x in names:
            c = constof(x)
            if isinstance(c, str) and c in o.ix.names:
                cc = o.ix.cells[o.ix.names.index(c)]
            else:
                need_col(I, ref, x, n, st)
                cc = col_cell(o, c) if c is not NOC else None
            if cc is not None and cc.lab:
                labs.add(cc.lab)
        allrow = {c.lab for a, c in ((a, x.cell) for a, x in o.cols.items()) if c is not None and c.lab in ("O", "D", "sim")}
        if labs >= allrow and labs:
            g.ro = o.ro - {"ord"}
        if o.ix.special:
            # special rows keep their keys
            pass
    else:
        c = o.ix.cells[0] if len(o.ix.cells) == 1 else None
        if c is not None and c.lab in ("O", "D"):
            g.ro = o.ro - {"ord"}
    return I.new(st, g, n)


def rename_axis(I, ref, o, kw, n, st):
    g = plain(o)
    v = kw.get("mapper", kw.get("index"))
    if "columns" in kw:
        g.colsname = constof(kw["columns"])
    if "mapper" in kw and isaxis1(kw.get("axis")):
        g.colsname = constof(kw["mapper"])
    elif v is not None:
        if isinstance(v, Sc):
            g.ix = g.ix.w(names=(constof(v),) * len(g.ix.cells))
        else:
            segs, _ = iterate(I, v, n, st)
            g.ix = g.ix.w(names=tuple(constof(x) for x, _ in segs) if len(segs) == len(g.ix.cells) else (NOC,) * len(g.ix.cells))
    return I.new(st, g, n)


def astype(I, ref, o, spec, n, st):
    so = asobj(I, spec, st) if spec is not None else None
    def tname(v):
        if isinstance(v, LibV):
            return v.name.split(".")[-1]
        return constof(v)
    def cast(c, nm):
        if c is None:
            return None
        if nm in ("int", "int64", "int32", "float", "float64") and isinstance(c.const, str):
            try:
                float(c.const)
            except ValueError:
                I.fail("type-error", n, "text %r is converted to a number" % c.const, st=st)
        return cast_cell(I, c, nm, n)
    g = plain(o)
    if isinstance(so, Dct):
        if isinstance(o, Ser):
            return I.new(st, g, n)
        for kk, v in so.items.items():
            if isinstance(kk, tuple) and kk[:1] == ("%",):
                if g.rest is not None:
                    g.rest = g.rest.map(lambda c: cast(c, tname(v)))
                continue
            if kk not in g.cols and not g.open and not (g.rest is not None and not isinstance(kk, str)):
                I.fail("missing-col", n, "column %r does not exist (columns: %s)" % (kk, ", ".join(map(str, list(g.cols)[:12]))), st=st, name=kk)
            if kk in g.cols:
                g.cols[kk] = g.cols[kk].map(lambda c: cast(c, tname(v)))
        if so.rest is not None and g.rest is not None:
            g.rest = g.rest.map(lambda c: cast(c, tname(so.rest)))
        return I.new(st, g, n)
    nm = tname(spec) if spec is not None else None
    if isinstance(o, Frame):
        return I.new(st, map_frame(o, lambda c: cast(c, nm)), n)
    return I.new(st, map_ser(o, lambda c: cast(c, nm)), n)


def frame_apply(I, ref, o, f, ax1, kw, n, st):
    extra = []
    if "args" in kw:
        extra = [x for x, _ in iterate(I, kw["args"], n, st)[0]]
    if not callable_v(f):
        return None
    if ax1:
        res = {}
        order = []
        keys = ([None] if o.ix.cells != (None,) or not o.ix.special else []) + list(o.ix.special)
        for s in keys:
            row = row_ser(o, s)
            if s is None and len(o.ix.cells) == 1 and o.ix.cells[0] is not None:
                row.name = NOC
            elif s is not None:
                row.name = s
            r = I.new(st, row, n)
            v = fn_apply(I, f, r, n, st, extra)
            res[s] = v
        vo = [asobj(I, v, st) for v in res.values()]
        if vo and all(isinstance(x, Ser) for x in vo):
            g = Frame(ix=o.ix)
            first = vo[0]
            for a in first.special:
                g.cols[a] = Col(first.special[a] if None in res else None, {s: asobj(I, res[s], st).special.get(a, UNK) for s in o.ix.special})
            if first.cell is not None:
                g.rest = Col(first.cell)
                g.restlab = first.ix.cells[0].lab if first.ix.cells and first.ix.cells[0] is not None else None
            return I.new(st, g, n)
        g = Ser(ix=o.ix, ro=o.ro)
        g.name = None
        if None in res:
            g.cell = as_cell(I, res[None], st) if not isinstance(asobj(I, res[None], st), (Seq,)) else Cell(I.tags_of(res[None], st))
        for s in o.ix.special:
            if s in res:
                g.special[s] = as_cell(I, res[s], st)
        return I.new(st, g, n)
    # per column
    out = {}
    vals = {}
    if o.rest is not None:
        r = ser_view(I, ref, o, None, o.rest, n, st)
        vals[None] = fn_apply(I, f, r, n, st, extra)
    for a, c in o.cols.items():
        r = ser_view(I, ref, o, a, c, n, st)
        vals[a] = fn_apply(I, f, r, n, st, extra)
    objs = [asobj(I, v, st) for v in vals.values()]
    if objs and all(isinstance(x, (Ser, Arr)) for x in objs):
        g = Frame(ix=o.ix, restlab=o.restlab)
        for a, v in vals.items():
            x = asobj(I, v, st)
            if isinstance(x, Ser):
                g.ix = x.ix
            col = Col(x.cell, dict(x.special))
            if a is None:
                g.rest = col
            else:
                g.cols[a] = col
        return I.new(st, g, n)
    g = Ser(ix=cols_ix(o))
    g.name = None
    for a, v in vals.items():
        if a is None:
            g.cell = as_cell(I, v, st)
        else:
            g.special[a] = as_cell(I, v, st)
    return I.new(st, g, n)


def dropna(I, ref, o, kw, n, st):
    g = plain(o)
    sub = kw.get("subset")
    if sub is not None and sub != NONE:
        for x in ([sub] if isinstance(sub, Sc) else [v for v, _ in iterate(I, sub, n, st)[0]]):
            need_col(I, ref, x, n, st)
    if isaxis1(kw.get("axis")):
        return I.new(st, g, n)
    tok = "nn"
    if miss.FORM[0] and constof(kw.get("how", k("any"))) == "all":
        tok = "nnall"
    if miss.FORM[0] and isinstance(o, Ser) and len(o.ix.cells) == 1 and o.ix.cells[0] is not None:
        tok = "nnall" if o.ix.cells[0].rep is None else o.ix.cells[0].rep
    g.ix = o.ix.w(cells=tuple(c.w(rep=tok) if c is not None and c.lab in ("O", "D", "pos") else c for c in o.ix.cells))
    # rows whose every known value is missing disappear
    if isinstance(o, Ser):
        sps = [s for s, c in o.special.items() if isinstance(c.const, float) and c.const != c.const]
        if sps:
            g.special = {s: c for s, c in o.special.items() if s not in sps}
            g.ix = g.ix.w(special=tuple(s for s in g.ix.special if s not in sps))
    if miss.ON[0] and constof(kw.get("how", k("any"))) == "any" and kw.get("thresh", NONE) == NONE:
        w = lambda c: miss.less(c, miss.MISS, miss.SH) if c is not None else None
        if isinstance(o, Ser):
            g = map_ser(g, w)
        elif sub is None or sub == NONE:
            g = map_frame(g, w)
        else:
            for x in ([sub] if isinstance(sub, Sc) else [v for v, _ in iterate(I, sub, n, st)[0]]):
                if constof(x) in g.cols:
                    g.cols[constof(x)] = g.cols[constof(x)].map(w)
    return I.new(st, g, n)


def drop(I, ref, o, kw, n, st):
    g = plain(o)
    labels = kw.get("labels")
    cols = kw.get("columns")
    idx = kw.get("index")
    if labels is not None and labels != NONE:
        if isaxis1(kw.get("axis")):
            cols = labels
        else:
            idx = labels
    ignore = constof(kw.get("errors", NONE)) == "ignore"
    if cols is not None and cols != NONE and isinstance(o, Frame):
        names, lab = (None, None)
        if isinstance(cols, Sc):
            names, lab = ([constof(cols)], None) if constof(cols) is not NOC else ([], cols.cell.lab)
        else:
            names, lab = col_spec(I, cols, st)
        for c in names or ():
            if c not in g.cols:
                if not ignore and not o.open and not (o.rest is not None and not isinstance(c, str)) and not has_absnames(o):
                    I.fail("missing-col", n, "dropped column %r does not exist (columns: %s)" % (c, ", ".join(map(str, list(g.cols)[:12]))), st=st, name=c)
            g.cols.pop(c, None)
    if idx is not None and idx != NONE:
        if isinstance(idx, Sc):
            keys = [idx]
        else:
            keys = [v for v, _ in iterate(I, idx, n, st)[0]]
        for x in keys:
            c = constof(x)
            if isinstance(c, (str, AbsStr)):
                if c in g.ix.special:
                    g = filt(I, g, EMPTY, n, [c])
                    if o.ix.cells and o.ix.cells[0] is not None:
                        g.ix = g.ix.w(cells=o.ix.cells)
                elif not ignore:
                    row_label_missing(I, o if isinstance(o, Frame) else Frame(ix=o.ix), x, n, st)
            else:
                g = filt(I, g, I.tags_of(x, st), n)
    return I.new(st, g, n)


def reset_index(I, ref, o, kw, n, st):
    dropit = truthy(kw.get("drop"))
    if isinstance(o, Ser):
        if dropit is True:
            g = plain(o, ix=RANGE)
            if o.ix.special and o.special:
                g.special = dict(o.special)
                g.ix = Ix((None,), RANGE.cells, o.ix.special)
            return I.new(st, g, n)
        nm = o.name if o.name is not NOC and o.name is not None else (0 if o.name is None else NOC)
        f = Frame(ix=o.ix, ro=o.ro)
        f.cols[nm if nm is not NOC else 0] = Col(o.cell, dict(o.special))
        if nm is NOC:
            f.open = True
        if "name" in kw and constof(kw["name"]) is not NOC:
            f.cols = {constof(kw["name"]): Col(o.cell, dict(o.special))}
        o = f
        kw = {a: b for a, b in kw.items() if a != "name"}
    g = plain(o)
    keep = o.ix.special
    g.ix = Ix((None,), RANGE.cells if o.ix.cells != (None,) else (None,), keep)
    if dropit is not True:
        new = {}
        for i, (nm, c) in enumerate(zip(o.ix.names, o.ix.cells)):
            if nm is None:
                nm = "index" if len(o.ix.cells) == 1 and "index" not in o.cols else "level_%d" % i
            if nm in o.cols:
                I.fail("bad-call", n, "cannot insert column %r, it already exists" % (nm,), st=st)
            if nm is NOC:
                g.open = True
                continue
            new[nm] = Col(c.w(rep=None) if c is not None and c.lab else c, {s: const_cell(s) for s in keep} if len(o.ix.cells) == 1 else {})
        if "names" in kw and isinstance(constof(kw["names"]), str) and len(new) == 1:
            new = {constof(kw["names"]): list(new.values())[0]}
        new.update(g.cols)
        g.cols = new
    return I.new(st, g, n)


def set_index(I, ref, o, kw, n, st):
    keys = kw.get("keys")
    g = plain(o)
    if isinstance(keys, Sc):
        ks = [keys]
    else:
        ko = asobj(I, keys, st)
        if isinstance(ko, (Ser, Idx, Arr)):
            g.ix = ix_from(I, keys, st)
            repos(g)
            return I.new(st, g, n)
        ks = [v for v, _ in iterate(I, keys, n, st)[0]]
    names, cells = [], []
    sp = ()
    for x in ks:
        c = constof(x)
        col, kk = find_col(I, o, x, n, st)
        names.append(c)
        cells.append(col.cell)
        if len(ks) == 1:
            ren = {s: (v.const if isinstance(v.const, (str, AbsStr)) else s) for s, v in col.special.items()}
            sp = tuple(ren.get(s, s) for s in o.ix.special)
            def rk(cc):
                return Col(cc.cell, {ren.get(s, s): v for s, v in cc.special.items()}, cc.maybe)
            g.cols = {a: rk(v) for a, v in g.cols.items()}
            g.rest = rk(g.rest) if g.rest is not None else None
        if truthy(kw.get("drop")) is not False:
            g.cols.pop(c, None)
    g.ix = Ix(tuple(names), tuple(cells), sp)
    return I.new(st, g, n)


def rename(I, ref, o, kw, n, st):
    if isinstance(o, Ser):
        v = kw.get("index")
        g = plain(o)
        if v is None:
            return I.new(st, g, n)
        c = constof(v)
        vo = asobj(I, v, st)
        if isinstance(vo, Dct):
            mp = {a: constof(b) for a, b in vo.items.items()}
            g.special = {mp.get(s, s): x for s, x in g.special.items()}
            g.ix = g.ix.w(special=tuple(mp.get(s, s) for s in g.ix.special))
        elif c is not NOC:
            g.name = c
        return I.new(st, g, n)
    g = plain(o)
    colmap, ixmap = kw.get("columns"), kw.get("index")
    mapper = kw.get("mapper")
    if mapper is not None and mapper != NONE:
        if isaxis1(kw.get("axis")):
            colmap = mapper
        else:
            ixmap = mapper
    def tomap(v):
        vo = asobj(I, v, st)
        if isinstance(vo, Dct):
            return vo
        return v
    if colmap is not None and colmap != NONE:
        m = tomap(colmap)
        new = {}
        if isinstance(m, Dct):
            strict = constof(kw.get("errors", NONE)) == "raise"
            for a, c in g.cols.items():
                t = m.items.get(a, None)
                if t is None:
                    b = a
                else:
                    b = constof(t)
                if b is NOC:
                    g.open = True
                    b = a
                new[b] = c
            if g.rest is not None:
                for kk, t in m.items.items():
                    if isinstance(kk, tuple) and kk[:1] == ("%",) and constof(t) is not NOC:
                        new[constof(t)] = g.rest
                        g.rest = None
                        break
            elif m.rest is not None:
                pass
            g.cols = new
        elif callable_v(m):
            for a, c in g.cols.items():
                r = constof(fn_apply(I, m, k(a), n, st))
                new[r if r is not NOC else a] = c
                if r is NOC:
                    g.open = True
            g.cols = new
    if ixmap is not None and ixmap != NONE:
        m = tomap(ixmap)
        if isinstance(m, Dct):
            mp = {a: constof(b) for a, b in m.items.items()}
            g.ix = g.ix.w(special=tuple(mp.get(s, s) for s in g.ix.special))
            g.cols = {a: Col(c.cell, {mp.get(s, s): x for s, x in c.special.items()}) for a, c in g.cols.items()}
    return I.new(st, g, n)


def pivot(I, ref, o, kw, n, st, name):
    idx, colsk, vals = kw.get("index"), kw.get("columns"), kw.get("values")
    for v in (idx, colsk, vals):
        if isinstance(v, Sc):
            need_col(I, ref, v, n, st)
    ci, cc = constof(idx) if idx is not None else NOC, constof(colsk) if colsk is not None else NOC
    if ci not in o.cols or cc not in o.cols:
        return I.new(st, Frame(open=True, rest=Col(as_cell(I, ref, st))), n)
    vcells = [c.all() for a, c in o.cols.items() if a not in (ci, cc)]
    single = False
    if vals is not None and vals != NONE:
        cv = constof(vals)
        if cv in o.cols:
            vcells, single = [o.cols[cv].all()], True
    c = join_all(vcells) or UNK
    if "dup" in o.ro:
        c = c.tag({"rowdup"})
    if name == "pivot_table":
        af = constof(kw.get("aggfunc", k("mean")))
        if af not in ("sum",) and "dup" in o.ro:
            c = c.tag({"rowdup"})
    if miss.ON[0] and c.dim == D1:
        fv = kw.get("fill_value", NONE)
        if name == "pivot_table" and constof(kw.get("aggfunc", k("mean"))) == "sum" and constof(kw.get("dropna", TRUE)) is False:
            c = summed(c, "sum", k(0))
        c = miss.filled(c.tag({miss.MISS}), c.tag({miss.MISS}), fv.cell) if isinstance(fv, Sc) and miss.isnum(fv.cell) else c.tag({miss.MISS})
    g = Frame(rest=Col(c), restlab=o.cols[cc].cell.lab if o.cols[cc].cell is not None else None,
              ix=Ix((ci,), (o.cols[ci].cell.w(rep=None) if o.cols[ci].cell is not None else UNK,), ()), multi=not single,
              colsname=cc if single else (None, cc))
    return I.new(st, g, n)


def melt(I, ref, o, kw, n, st):
    idv = kw.get("id_vars")
    ids = []
    if idv is not None and idv != NONE:
        ids = [constof(x) for x in ([idv] if isinstance(idv, Sc) else [v for v, _ in iterate(I, idv, n, st)[0]])]
    for c in ids:
        if c is not NOC and c not in o.cols and not o.open:
            I.fail("missing-col", n, "column %r does not exist (columns: %s%s)" % (c, ", ".join(map(str, list(o.cols)[:12])), " and labels" if o.rest is not None else ""),
                   st=st, name=c)
    vv = kw.get("value_vars")
    vnv = kw.get("var_name", NONE)
    vo = asobj(I, vnv, st)
    if isinstance(vo, Seq) and len(vo.segs) == 1 and vo.exact():
        vnv = vo.segs[0][0]
    vn = constof(vnv)
    if vn is None:
        vn = o.colsname if isinstance(o.colsname, str) else "variable"
    ln = constof(kw.get("value_name", k("value")))
    rest_names = [a for a in o.cols if a not in ids]
    if vv is not None and vv != NONE:
        names, lab = col_spec(I, vv, st)
        for c in names or ():
            need_col(I, ref, k(c), n, st)
        rest_names = [a for a in (names or ()) if a in o.cols]
        useall = bool(lab)
    else:
        useall = True
    vcell, ncell = None, None
    if o.rest is not None and useall:
        vcell = o.rest.all()
        ncell = Cell(lab=o.restlab if o.restlab != "any" else None, dt="label")
    for a in rest_names:
        vcell = cell_join(vcell, o.cols[a].all()) if vcell is not None else o.cols[a].all()
        nc = const_cell(a)
        ncell = cell_join(ncell, nc) if ncell is not None else nc
    g = Frame()
    if truthy(kw.get("ignore_index")) is False:
        g.ix = o.ix
    for c in ids:
        if c in o.cols:
            g.cols[c] = Col(o.cols[c].cell if o.cols[c].cell is not None else o.cols[c].all())
    if o.ix.special:
        for c in ids:
            if c in o.cols:
                g.cols[c] = Col(o.cols[c].all())
    g.cols[vn] = Col(ncell or UNK)
    g.cols[ln] = Col(vcell or UNK)
    g.ro = o.ro
    if len(rest_names) > 1 and o.rest is None:
        # long form of named columns: one class per variable
        pass
    return I.new(st, g, n)


def merge(I, left, right, kw, n, st):
    lo, ro = asobj(I, left, st), asobj(I, right, st)
    if isinstance(left, Un) or isinstance(right, Un):
        if isinstance(left, Un):
            return I.per_atom(left, lambda a, s: merge(I, a, right, kw, n, s), st)
        return I.per_atom(right, lambda a, s: merge(I, left, a, kw, n, s), st)
    tags = EMPTY
    for a in ("how", "on"):
        if a in kw:
            tags |= I.tags_of(kw[a], st)
    if isinstance(ro, Ser) and isinstance(lo, Frame):
        nm = ro.name if isinstance(ro.name, str) else 0
        ro = Frame(cols={nm: Col(ro.cell, dict(ro.special))}, ix=ro.ix)
    if isinstance(lo, Ser) and isinstance(ro, Frame):
        nm = lo.name if isinstance(lo.name, str) else 0
        lo = Frame(cols={nm: Col(lo.cell, dict(lo.special))}, ix=lo.ix)
    if not isinstance(lo, Frame) or not isinstance(ro, Frame):
        return Top(I.tags_of(left, st) | (I.tags_of(right, st) if right is not None else EMPTY))
    def keyl(v):
        if v is None or v == NONE:
            return None
        if isinstance(v, Sc):
            return [constof(v)]
        return [constof(x) for x, _ in iterate(I, v, n, st)[0]]
    on, lon, ron = keyl(kw.get("on")), keyl(kw.get("left_on")), keyl(kw.get("right_on"))
    li, ri = truthy(kw.get("left_index")) is True, truthy(kw.get("right_index")) is True
    if on is None and lon is None and ron is None and not li and not ri:
        on = [c for c in lo.cols if c in ro.cols]
    lk = on or lon or []
    rk = on or ron or []
    for kk, f, w in [(x, lo, "left") for x in lk] + [(x, ro, "right") for x in rk]:
        if kk is not NOC and kk not in f.cols and kk not in f.ix.names and not f.open and not (f.rest is not None and not isinstance(kk, str)):
            I.fail("missing-col", n, "merge key %r does not exist in the %s table (columns: %s)" % (kk, w, ", ".join(map(str, list(f.cols)[:12]))), st=st, name=kk)
    sfx = ("_x", "_y")
    if "suffixes" in kw:
        s = [constof(x) for x, _ in iterate(I, kw["suffixes"], n, st)[0]]
        if len(s) == 2 and NOC not in s:
            sfx = (s[0] or "", s[1] or "")
    how = constof(kw.get("how", k("inner")))
    # label agreement of the keys
    def kcell(f, key, useix):
        if useix:
            return f.ix.cells[0] if len(f.ix.cells) == 1 else None
        if key in f.cols:
            return f.cols[key].cell
        if key in f.ix.names:
            return f.ix.cells[f.ix.names.index(key)]
        return None
    pairs = []
    if lk and rk and len(lk) == len(rk):
        pairs = [(kcell(lo, a, False), kcell(ro, b, False)) for a, b in zip(lk, rk)]
    elif li and ri:
        pairs = [(kcell(lo, None, True), kcell(ro, None, True))]
    elif lk and ri:
        pairs = [(kcell(lo, lk[0], False), kcell(ro, None, True))]
    elif li and rk:
        pairs = [(kcell(lo, None, True), kcell(ro, rk[0], False))]
    atk = None
    if miss.TST[0] and len(pairs) == 2:
        I.event("joined", n, " ".join("%s~%s" % tuple(T.show(x.term, 9) if x is not None and x.term is not None else "?" for x in p) for p in pairs),
                keys=tuple(tuple((x.lab, x.term) if x is not None else (None, None) for x in p) for p in pairs))
    for a, b in pairs:
        if a is not None and b is not None:
            if a.lab in ("O", "D", "pos") and b.lab in ("O", "D", "pos") and a.lab != b.lab:
                I.event("misalign", n, "rows labelled by %s are merged with rows labelled by %s" % (lab_name(a.lab), lab_name(b.lab)))
            if a.term is not None and a.term != b.term:
                atk = a.term
    single_special = len(pairs) == 1
    g = plain(lo)
    g.cols = {}
    keyset = set(on or [])
    overlap = [c for c in lo.cols if c in ro.cols and c not in keyset]
    if overlap and not (lon or ron or li or ri) and on is None:
        pass
    if sfx == ("", "") and overlap and not lo.open and not ro.open:
        I.fail("bad-call", n, "columns overlap but no suffix specified: %s" % ", ".join(map(str, overlap)), st=st)
    for a, c in lo.cols.items():
        g.cols[a + sfx[0] if a in overlap and isinstance(a, str) else a] = c
    maynan = how in ("left", "outer") and False
    for a, c in ro.cols.items():
        if a in keyset:
            continue
        if (lon and ron) and a in ron and a in (lon or ()):
            continue
        nm = a + sfx[1] if a in overlap and isinstance(a, str) else a
        cell = c.cell if c.cell is not None else c.all()
        if atk is not None and cell.term is not None:
            cell = cell.w(term=at_term(cell.term, atk))
        cell = cell.tag(tags)
        sp = {}
        for s in lo.ix.special:
            x = c.special.get(s)
            if x is None and single_special:
                # special row's key value
                kc = None
                if lk and lk[0] in lo.cols:
                    kc = lo.cols[lk[0]].special.get(s)
                elif li:
                    kc = const_cell(s)
                if kc is not None and isinstance(kc.const, (str, AbsStr)):
                    x = c.special.get(kc.const)
                    if x is None and kc.const not in ro.ix.special:
                        x = NANC
            sp[s] = x if x is not None else (NANC if kc_missing(lo, lk, s) else cell)
        g.cols[nm] = Col(cell, sp)
    g.rest = lo.rest
    if ro.rest is not None:
        g.rest = ro.rest if g.rest is None else dom.col_join(g.rest, ro.rest)
        g.restlab = ro.restlab if lo.rest is None else lo.restlab
    g.open = lo.open or ro.open
    g.ro = lo.ro | ro.ro
    if on or lon:
        g.ix = RANGE if not ((li or ri)) else lo.ix
        if lo.ix.special and not (li or ri):
            g.ix = Ix((None,), RANGE.cells, lo.ix.special)
    # sim x origin x dev fan-out keeps the row identity of the finer table
    if not (li or ri) and "dup" in g.ro and False:
        pass
    return I.new(st, g, n)


def kc_missing(lo, lk, s):
    return False


def concat(I, args, kw, n, st):
    objs = kw.get("objs", args[0] if args else None)
    if objs is None:
        return TOP
    segs, _ = iterate(I, objs, n, st)
    items = []
    for v, m in segs:
        for a in atoms_of(v):
            if isinstance(a, Ref) and isinstance(st.heap[a.oid], (Frame, Ser)):
                items.append((a, st.heap[a.oid], m))
            elif a == NONE or a == UNB:
                continue
            else:
                return Top(I.tags_of(objs, st))
    if not items:
        return TOP
    ignore = truthy(kw.get("ignore_index")) is True
    if isaxis1(kw.get("axis")):
        g = Frame(ix=items[0][1].ix)
        for a, o, m in items:
            if len(o.ix.cells) == 1 and len(g.ix.cells) == 1:
                align_event(I, g.ix, o.ix, n, "side-by-side concatenation")
            for s in o.ix.special:
                if s not in g.ix.special:
                    g.ix = g.ix.w(special=g.ix.special + (s,))
        for a, o, m in items:
            f = o
            if isinstance(o, Ser):
                nm = o.name if isinstance(o.name, (str, AbsStr)) else len(g.cols) if o.name is None else None
                f = Frame(ix=o.ix)
                if nm is None or m and not isinstance(o.name, str):
                    g.open = True
                    g.rest = dom.col_join(g.rest, Col(o.cell)) if g.rest is not None else Col(o.cell)
                    continue
                f.cols[nm] = Col(o.cell, dict(o.special))
            for c, col in f.cols.items():
                x = Col(col.cell, {s: col.special.get(s, col.cell if s in o.ix.special and col.cell is not None else NANC) for s in g.ix.special})
                g.cols[c] = x
            if f.rest is not None:
                g.rest = f.rest if g.rest is None else dom.col_join(g.rest, f.rest)
                g.restlab = f.restlab
            g.open = g.open or f.open
            g.ro |= f.ro
        if ignore:
            g = Frame(ix=g.ix, rest=Col(join_all(list(g.cells())) or UNK), restlab="pos", ro=g.ro)
        return I.new(st, g, n)
    if all(isinstance(o, Ser) for _, o, _ in items):
        a, o, m = items[0]
        g = plain(o)
        for _, x, _ in items[1:]:
            if g.cell is None:
                g.cell = x.cell
            elif x.cell is not None:
                g.cell = cell_join(g.cell, x.cell)
            for s, c in x.special.items():
                g.special[s] = cell_join(g.special[s], c) if s in g.special else c
            cells = g.ix.cells if g.ix.cells != (None,) else x.ix.cells
            if g.ix.cells != (None,) and x.ix.cells != (None,) and len(cells) == len(x.ix.cells):
                cells = tuple(cell_join(p, q) if p is not None and q is not None else (p or q) for p, q in zip(cells, x.ix.cells))
            g.ix = g.ix.w(cells=cells, special=tuple(dict.fromkeys(g.ix.special + x.ix.special)))
            g.name = g.name if g.name == x.name else None
            g.ro |= x.ro
        if ignore:
            g.ix = RANGE
        return I.new(st, g, n)
    a, o, m = items[0]
    if isinstance(o, Ser):
        nm = o.name if isinstance(o.name, str) else 0
        o = Frame(cols={nm: Col(o.cell, dict(o.special))}, ix=o.ix)
    g = plain(o)
    for _, x, _ in items[1:]:
        if isinstance(x, Ser):
            nm = x.name if isinstance(x.name, str) else 0
            x = Frame(cols={nm: Col(x.cell, dict(x.special))}, ix=x.ix)
        sp = tuple(dict.fromkeys(g.ix.special + x.ix.special))
        new = {}
        for c in list(g.cols) + [c for c in x.cols if c not in g.cols]:
            p, q = g.cols.get(c), x.cols.get(c)
            def part(col, f):
                if col is not None:
                    return col
                if f.open and f.rest is not None:
                    return f.rest
                return Col(NANC if f.ix.cells != (None,) else None, {s: NANC for s in f.ix.special})
            pp, qq = part(p, g), part(q, x)
            cell = pp.cell if qq.cell is None else qq.cell if pp.cell is None else cell_join(pp.cell, qq.cell)
            if cell is not None and None not in (pp.cell, qq.cell) and {pp.cell.rep, qq.cell.rep} == {"I", "C"}:
                I.event("rep", n, "incremental and cumulative amounts are put below each other in one column")
            spc = {}
            for s in sp:
                if s in g.ix.special and s in x.ix.special:
                    spc[s] = cell_join(pp.special.get(s, pp.cell or UNK), qq.special.get(s, qq.cell or UNK))
                elif s in g.ix.special:
                    spc[s] = pp.special.get(s, pp.cell or UNK)
                else:
                    spc[s] = qq.special.get(s, qq.cell or UNK)
            new[c] = Col(cell, spc)
        g.cols = new
        if x.rest is not None or g.rest is not None:
            g.rest = dom.col_join(g.rest, x.rest) if g.rest is not None and x.rest is not None else (g.rest or x.rest)
            g.restlab = g.restlab or x.restlab
        cells = g.ix.cells
        if len(g.ix.cells) == len(x.ix.cells):
            cells = tuple(p if q is None else q if p is None else cell_join(p, q) for p, q in zip(g.ix.cells, x.ix.cells))
        g.ix = Ix(tuple(p if p == q else None for p, q in zip(g.ix.names, x.ix.names)) if len(g.ix.names) == len(x.ix.names) else g.ix.names, cells, sp)
        g.open = g.open or x.open
        g.ro |= x.ro
    if ignore:
        g.ix = Ix((None,), RANGE.cells if g.ix.cells != (None,) else (None,), g.ix.special)
    return I.new(st, g, n)


# ---- series ---------------------------------------------------------------
def ser_map_with(I, o, f, n, st):
    """Series.map / Index.map"""
    fo = asobj(I, f, st)
    if isinstance(fo, Dct):
        vals = [v for v in fo.items.values() if v != UNB] + ([fo.rest] if fo.rest is not None else [])
        def mc(c):
            if c.const is not NOC and not isinstance(c.const, AbsStr):
                try:
                    if c.const in fo.items:
                        return as_cell(I, fo.items[c.const], st).tag(c.tags)
                except TypeError:
                    pass
                if fo.rest is None and not any(isinstance(x, (tuple, AbsStr)) for x in fo.items):
                    return NANC.tag(c.tags)
            j = join_all([as_cell(I, v, st) for v in vals]) or UNK
            labs = {x[1].lab for x in fo.items if isinstance(x, tuple) and x[:1] == ("%",) and isinstance(x[1], Cell)}
            if c.lab in ("O", "D") and labs and labs <= {"O", "D"} and c.lab not in labs:
                I.event("misalign", n, "an %s label is looked up in a table keyed by %s" % (lab_name(c.lab), lab_name(next(iter(labs)))))
            if c.term is not None and j.term is not None:
                j = j.w(term=at_term(j.term, c.term))
            return j.tag(c.tags)
        return mc
    if isinstance(fo, Ser):
        def mc(c):
            ixc = fo.ix.cells[0] if len(fo.ix.cells) == 1 else None
            if isinstance(c.const, (str, AbsStr)):
                if c.const in fo.special:
                    return fo.special[c.const].tag(c.tags)
                if ixc is None or ixc.lab in ("O", "D", "pos"):
                    return NANC.tag(c.tags)
            if ixc is not None and c.lab in ("O", "D", "pos") and ixc.lab in ("O", "D", "pos") and c.lab != ixc.lab:
                I.event("misalign", n, "an %s label is looked up in a series labelled by %s" % (lab_name(c.lab), lab_name(ixc.lab)))
            r = fo.cell if fo.cell is not None else fo.all()
            if c.term is not None and r.term is not None:
                r = r.w(term=at_term(r.term, c.term))
            return r.tag(c.tags)
        return mc
    if callable_v(f):
        return lambda c: as_cell(I, fn_apply(I, f, Sc(c), n, st), st)
    return None


def ser_method(I, ref, o, name, args, kw, n, st):
    tags = alltags(I, list(args), kw, st)
    new = lambda g: I.new(st, g, n)
    if name == "copy":
        g = o.clone()
        g.owner, g.site = EMPTY, None
        g.base = ref.oid if "deep" in kw and truthy(kw["deep"]) is not True else None
        if g.base is None:
            g.frame = None
        return new(g)
    if name in ("map", "apply", "agg", "aggregate", "transform"):
        f = args[0] if args else kw.get("arg", kw.get("func"))
        if isinstance(constof(f), str):
            return ser_method(I, ref, o, constof(f), list(args[1:]), {a: b for a, b in kw.items() if a not in ("func", "arg")}, n, st)
        mc = ser_map_with(I, o, f, n, st) if f is not None else None
        if mc is None:
            return None
        if name in ("agg", "aggregate"):
            return I.call(f, [ref], {}, n, st)
        return new(map_ser(o, mc))
    if name in OPM:
        return I.binop(OPM[name], ref, args[0] if args else kw.get("other"), n, st)
    if name in ROPM:
        return I.binop(ROPM[name], args[0] if args else kw.get("other"), ref, n, st)
    if name in CMPM:
        return I.compare(CMPM[name], ref, args[0] if args else kw.get("other"), n, st)
    if name == "to_frame":
        g = Frame(ix=o.ix, ro=o.ro)
        nm = constof(kw["name"]) if "name" in kw else o.name
        if nm is None:
            nm = 0
        if nm is NOC:
            g.rest = Col(o.cell, dict(o.special))
            g.restlab = "any"
        else:
            g.cols[nm] = Col(o.cell, dict(o.special))
        return new(g)
    if name == "reset_index":
        return reset_index(I, ref, o, kw, n, st)
    if name in ("sort_index", "sort_values"):
        g = plain(o)
        if name == "sort_index":
            c = o.ix.cells[0] if len(o.ix.cells) == 1 else None
            asc = constof(kw.get("ascending", TRUE))
            if c is not None and c.lab in ("O", "D"):
                g.ro = o.ro - {"ord", "rev"}
                if asc is False:
                    g.ro = g.ro | {"rev"}
        return new(g)
    if name == "astype":
        return astype(I, ref, o, args[0] if args else kw.get("dtype"), n, st)
    if name in ("abs", "round", "isnull", "isna", "notnull", "notna"):
        if name == "round":
            return lift(I, [ref], lambda c: rounded(I, c, n, st), n, st)
        return lift(I, [ref], lambda c: cell_unary(I, name, c, n), n, st)
    if name == "clip":
        return np_.clip_val(I, ref, kw.get("lower"), kw.get("upper"), n, st)
    if name in CUM:
        along = along_of(o, False)
        t = run_taint(I, o, None)
        def rc(c):
            t2 = t
            if "simv" in c.tags and name != "rank":
                t2 = t2 | {"xsim"}
            return running(I, name, c, n, st, along, kw, obj=o).tag(t2 | tags)
        return new(map_ser(o, rc))
    if name in RED:
        c = o.all()
        rt = rows_tok(o)
        if o.special and o.cell is not None:
            rt = None
        dup = EMPTY
        if "dup" in o.ro and name not in ("sum", "max", "min", "any", "all", "nunique", "size"):
            dup = frozenset(["rowdup"])
        if "ord" in o.ro and name in ("first", "last", "idxmax", "idxmin"):
            dup = dup | {"roworder"}
        if name == "quantile":
            q = kw.get("q")
            qc = as_cell(I, q, st) if q is not None else UNK
            I.event("quantile", n, "Series.quantile", method=kw.get("interpolation"), tags=tags)
            qt = T.mul(T.const(100), qc.term) if qc.term is not None else None
            t = T.atom("PCT", c.term or T.atom("anon"), qt) if qt is not None else None
            r = red_cell(I, "quantile", c, n).w(term=t).tag(tags)
            if isinstance(asobj(I, q, st), (Seq, Arr)):
                return new(Ser(cell=r, ix=Ix((None,), (qc,), ())))
            return Sc(r)
        if name in ("idxmax", "idxmin"):
            return Sc(Cell(c.tags, lab=o.ix.cells[0].lab if o.ix.cells[0] is not None else None))
        if name in ("size",):
            return Sc(Cell(EMPTY, D0, dt="pyint"))
        if name in ("any", "all") and o.cell is None and o.special:
            cs = [x.const for x in o.special.values()]
            if all(isinstance(x, bool) for x in cs):
                return k(any(cs) if name == "any" else all(cs))
        return Sc(red_cell(I, name, c, n, rt).tag(tags | dup))
    if name in ("dropna",):
        return dropna(I, ref, o, kw, n, st)
    if name == "fillna":
        return lift(I, [ref, kw["value"]], fill_cell, n, st) if "value" in kw else new(plain(o))
    if name in ("where", "mask"):
        other = kw.get("other", k(NAN))
        cond = kw.get("cond")
        if name == "mask":
            return lift(I, [cond, ref, other], lambda c, x, y: np_.sel_cell(I, c, y, x, n), n, st)
        return lift(I, [cond, ref, other], lambda c, x, y: np_.sel_cell(I, c, x, y, n), n, st)
    if name == "drop":
        return drop(I, ref, o, kw, n, st)
    if name in ("drop_duplicates",):
        return new(plain(o))
    if name == "unique":
        a = Arr(cell=o.cell if o.cell is not None else o.all(), special=dict(o.special), ix=o.ix)
        return new(a)
    if name in ("tolist", "to_list"):
        segs = [(Sc(o.cell), True)] if o.cell is not None else []
        return new(Seq(kind="list", segs=segs + [(Sc(c), False) for c in o.special.values()]))
    if name == "to_numpy":
        return ser_attr(I, ref, o, "values", n, st)
    if name == "item":
        return Sc(o.all())
    if name == "get":
        key = kw.get("key")
        c = constof(key)
        if c in o.special:
            return Sc(o.special[c])
        d = kw.get("default", NONE)
        q = T.key_of(o.cell.term) if miss.TST[0] and o.cell is not None else None
        if q and q[0] == "counts" and isinstance(c, (int, float)) and isinstance(constof(d), (int, float)):
            return Sc(o.cell.w(term=T.atom("cnt", T.const(int(c)), *((T.const(constof(d)),) if constof(d) != 0 else ()))))
        return val_join(Sc(o.all().tag(I.tags_of(key, st))), d)
    if name in ("items", "iteritems"):
        segs = []
        if o.cell is not None:
            lab = o.ix.cells[0] if len(o.ix.cells) == 1 and o.ix.cells[0] is not None else UNK
            segs.append((I.seq(st, [Sc(lab), Sc(o.cell)], node=n), True))
        for s, c in o.special.items():
            segs.append((I.seq(st, [k(s), Sc(c)], node=n), False))
        return new(Seq(kind="gen", segs=segs))
    if name == "keys":
        return I.new(st, Idx(ix=o.ix), n)
    if name in ("last_valid_index", "first_valid_index"):
        c = o.ix.cells[0] if len(o.ix.cells) == 1 and o.ix.cells[0] is not None else UNK
        return Sc(Cell(c.tags | (o.cell.tags if o.cell is not None else EMPTY) & frozenset(["roworder", "rowdup"]), lab=c.lab, dt="int" if c.dt in ("label", "int") else c.dt,
                       term=T.atom("lastvalid" if name[0] == "l" else "firstvalid", c.lab or "?", *((o.cell.term,) if miss.AVG[0] and o.cell is not None and o.cell.term is not None
                                                                                                     and miss.known_rows(o.ix) is None else ()))))
    if name in ("isin", "between", "duplicated"):
        vals = kw.get("values")
        known = None
        if name == "isin" and vals is not None:
            names, lab = col_spec(I, vals, st)
            if names is not None and lab is None:
                known = set(names)
        def mc(c):
            if known is not None and c.const is not NOC and not isinstance(c.const, AbsStr):
                return Cell(c.tags | tags, const=c.const in known, dt="bool")
            if known is not None and c.lab in ("O", "D"):
                for v in known:
                    if isinstance(v, (int, float)):
                        I.event("label-compare", n, "an %s label is compared with the literal %r" % (lab_name(c.lab), v), lab=c.lab)
            return Cell(c.tags | tags, dt="bool")
        return new(map_ser(o, mc))
    if name == "reindex":
        g = plain(o)
        fv = as_cell(I, kw["fill_value"], st) if "fill_value" in kw else NANC
        idx = kw.get("index")
        if idx is not None:
            g.ix = ix_from(I, idx, st)
            if g.cell is not None and miss.AVG[0] and fv.const == 0 and miss.known_rows(o.ix) is None and miss.known_rows(g.ix) is None and o.ix.cells[0].lab == g.ix.cells[0].lab:
                pass                    # (zero where there was no value)
            elif g.cell is not None:
                g.cell = cell_join(g.cell, fv).w(rep=g.cell.rep, dt=g.cell.dt) if fv.const == 0 or fv is NANC else cell_join(g.cell, fv)
                g.cell = miss.placeless(g.cell) if miss.AVG[0] else g.cell
            g.special = {s: g.special.get(s, fv) for s in g.ix.special}
        elif miss.AVG[0]:
            g.cell = miss.placeless(g.cell)
        return new(g)
    if name == "replace":
        keep = missing_key(args, kw)
        return new(map_ser(o, lambda c: c.w(term=c.term if keep else None, const=NOC).tag(tags)))
    if name == "sample":
        return sampled(I, new(filt(I, o, tags, n)), args, kw, n, st)
    if name in ("head", "tail", "nlargest", "nsmallest"):
        return new(filt(I, o, tags | taint_ord(o), n))
    if name in ("value_counts",):
        return new(Ser(cell=Cell(o.tagset(), D0, dt="pyint", term=T.atom("counts") if miss.TST[0] and not args and not kw else None), ix=Ix((None,), (o.all(),), ())))
    if name == "rename":
        return rename(I, ref, o, kw, n, st)
    if name == "rename_axis":
        return rename_axis(I, ref, o, kw, n, st)
    if name == "set_axis":
        g = plain(o)
        g.ix = ix_from(I, args[0] if args else kw.get("labels"), st)
        return new(g)
    if name == "groupby":
        return groupby(I, ref, o, kw, n, st)
    if name in ("argsort", "searchsorted", "argmax", "argmin"):
        c = Cell(o.tagset() | tags, D0, "pos", dt="pyint")
        return Sc(c) if name in ("argmax", "argmin", "searchsorted") else new(map_ser(o, lambda x: c))
    if name == "nonzero":
        return Top(o.tagset())
    if name in ("to_string", "to_csv", "to_json"):
        if name != "to_string" and args:
            I.event("file-write", n, "writes a table", path=args[0], tags=I.tags_of(args[0], st))
        return sc(dt="str")
    if name == "to_dict":
        d = Dct(items={s: Sc(c) for s, c in o.special.items()})
        if o.cell is not None:
            lab = o.ix.cells[0] if len(o.ix.cells) == 1 and o.ix.cells[0] is not None else UNK
            if lab.lab:
                d.items[("%", lab)] = Sc(o.cell)
            else:
                d.rest = Sc(o.cell)
        return new(d)
    if name == "equals":
        return sc(tags | o.tagset(), dt="bool")
    if name == "update":
        I.mutate(ref, n, st, "update")
        return NONE
    if name == "pop":
        I.mutate(ref, n, st, "pop")
        return Sc(o.all())
    if name in ("ravel", "view"):
        return ser_attr(I, ref, o, "values", n, st)
    if name in ("pipe",):
        return I.call(args[0], [ref] + list(args[1:]), {}, n, st)
    if name in ("mode",):
        return new(plain(o))
    if name in ("rolling", "expanding", "ewm", "corr", "cov", "autocorr", "dot", "explode", "combine_first", "interpolate", "describe", "hist", "plot"):
        return Top(o.tagset() | tags | over_rows(name, o.tagset()))
    return None


def idx_method(I, ref, o, name, args, kw, n, st):
    ix = o.ix
    tags = alltags(I, list(args), kw, st)
    new = lambda g: I.new(st, g, n)
    main = ix.cells[0] if len(ix.cells) == 1 else UNK
    if name == "get_loc":
        key = args[0] if args else kw.get("key")
        c = constof(key)
        if isinstance(c, str) and c not in ix.special and (main is None or main.lab in ("O", "D", "pos")) and not any(isinstance(s, AbsStr) for s in ix.special) and main is not UNK:
            I.fail("missing-key", n, "label %r does not exist" % c, st=st, name=c)
        lab = key.cell.lab if isinstance(key, Sc) else None
        if main is not None and main.lab in ("O", "D") and isinstance(c, int) and not isinstance(c, bool):
            I.event("label-compare", n, "the literal %r is used as an %s label" % (c, lab_name(main.lab)), lab=main.lab)
        if main is not None and main.lab in ("O", "D") and lab in ("O", "D") and lab != main.lab:
            I.event("label-pos", n, "an %s label is looked up among %s labels" % (lab_name(lab), lab_name(main.lab)))
        if isinstance(c, str) and main is None and c in ix.special:
            return k(ix.special.index(c))
        t = key.cell.term if isinstance(key, Sc) else None
        return Sc(Cell(I.tags_of(key, st), D0, "pos", None, T.atom("pos", t) if t is not None else None, NOC, "pyint"))
    if name in ("searchsorted", "argmax", "argmin", "get_indexer"):
        if name == "get_indexer":
            return new(Arr(cell=Cell(tags, D0, "pos", dt="pyint")))
        v = args[0] if args else kw.get("value")
        t = v.cell.term if miss.AVG[0] and name == "searchsorted" and isinstance(v, Sc) else None
        return Sc(Cell(tags, D0, "pos", dt="pyint", term=T.atom("pos", t) if t is not None else None))
    if name in ("argsort",):
        return new(Arr(cell=Cell(tags, D0, "pos", dt="pyint")))
    if name == "isin":
        a = Arr(cell=Cell((main.tags if main is not None else EMPTY) | tags, dt="bool"), ix=ix)
        names, lab = col_spec(I, args[0] if args else kw.get("values"), st)
        if names is not None and lab is None:
            a.special = {s: const_cell(s in names) for s in ix.special}
            if main is not None and main.lab in ("O", "D"):
                for v in names:
                    if isinstance(v, (int, float)):
                        I.event("label-compare", n, "an %s label is compared with the literal %r" % (lab_name(main.lab), v), lab=main.lab)
        return new(a)
    if name in ("tolist", "to_list"):
        if main is None:
            return new(Seq(kind="list", segs=[(k(s), False) for s in ix.special]))
        return new(Seq(kind="list", segs=py.idx_segs(ix)))
    if name in ("max", "min"):
        if main is None:
            return TOP
        r = main.w(rep=name if main.lab in ("O", "D") else main.rep, term=T.atom("lbl", main.lab, name) if main.lab in ("O", "D") else None, const=NOC)
        if any(s != "%beyond" for s in ix.special):
            return Sc(UNK)
        return Sc(r)
    if name == "droplevel":
        if len(ix.cells) > 1:
            return new(Idx(ix=Ix(ix.names[1:], ix.cells[1:], ix.special)))
        nm = ix.names[0]
        if isinstance(nm, tuple):
            return new(Idx(ix=ix.w(names=(nm[-1],)), axis=o.axis))
        return new(Idx(ix=ix, axis=o.axis))
    if name == "get_level_values":
        c = constof(args[0]) if args else NOC
        if len(ix.cells) > 1 and isinstance(c, int):
            return new(Idx(ix=Ix((ix.names[c],), (ix.cells[c],), ())))
        if isinstance(c, str) and c in ix.names:
            i = ix.names.index(c)
            return new(Idx(ix=Ix((ix.names[i],), (ix.cells[i],), ())))
        return new(Idx(ix=ix))
    if name in ("copy", "sort_values", "unique", "view", "drop_duplicates", "astype", "rename", "set_names", "intersection", "union", "difference",
                "append", "insert", "drop", "delete", "repeat", "dropna"):
        g = Idx(ix=ix, axis=o.axis)
        if name in ("rename", "set_names") and args:
            g.ix = ix.w(names=(constof(args[0]),))
        if name in ("union", "append", "insert") and args:
            oth = args[-1]
            oi = ix_from(I, oth, st)
            oc = constof(oth)
            if isinstance(oc, str):
                g.ix = ix.w(special=ix.special + (oc,))
            else:
                g.ix = ix.w(cells=(cell_join(main, oi.cells[0]) if main is not None and oi.cells[0] is not None else (main or oi.cells[0]),),
                            special=tuple(dict.fromkeys(ix.special + oi.special)))
        if name in ("difference", "drop") and args:
            names, lab = col_spec(I, args[0] if not isinstance(args[0], Sc) else I.seq(st, [args[0]], node=n), st)
            g.ix = ix.w(special=tuple(s for s in ix.special if s not in (names or ())))
            if lab is not None:
                g.ix = g.ix.w(cells=tuple(c.w(rep="f%d" % getattr(n, "lineno", 0)) if c is not None and c.lab else c for c in g.ix.cells))
        if name == "intersection" and args:
            names, lab = col_spec(I, args[0], st)
            g.ix = ix.w(special=tuple(s for s in ix.special if s in (names or ())))
        return new(g)
    if name == "map":
        mc = ser_map_with(I, o, args[0] if args else kw.get("mapper"), n, st)
        if mc is None:
            return None
        sp = []
        cells = tuple(mc(c) if c is not None else None for c in ix.cells)
        for s in ix.special:
            r = mc(const_cell(s))
            if isinstance(r.const, (str, AbsStr, int)):
                sp.append(r.const)
        return new(Idx(ix=Ix(ix.names, cells, tuple(sp))))
    if name in ("to_series", "to_frame"):
        g = Ser(cell=main, ix=ix, special={s: const_cell(s) for s in ix.special})
        g.name = ix.names[0] if len(ix.names) == 1 else None
        if name == "to_frame":
            return ser_method(I, new(g), g, "to_frame", args, kw, n, st)
        return new(g)
    if name == "to_numpy":
        return idx_attr(I, ref, o, "values", n, st)
    if name in ("any", "all", "equals", "identical"):
        return sc(tags, dt="bool")
    if name in ("item",):
        return Sc(main or UNK)
    if name in ("isna", "isnull", "notna", "duplicated"):
        return new(Arr(cell=Cell(tags, dt="bool"), ix=ix))
    return None


# ---- group by ---------------------------------------------------------------
def groupby(I, ref, o, kw, n, st):
    by = kw.get("by")
    keys = ()
    labs = set()
    lvl = False
    if by is None or by == NONE:
        lv = kw.get("level")
        lvl = True
        c = constof(lv) if lv is not None else 0
        i = o.ix.names.index(c) if c in o.ix.names else (c if isinstance(c, int) and c < len(o.ix.cells) else 0)
        keys = ("%level",)
        if i < len(o.ix.cells) and o.ix.cells[i] is not None and o.ix.cells[i].lab:
            labs.add(o.ix.cells[i].lab)
    elif isinstance(by, Sc):
        keys = (constof(by),)
    else:
        bo = asobj(I, by, st)
        if isinstance(bo, (Ser, Arr, Idx)):
            c = as_cell(I, by, st)
            if c.lab:
                labs.add(c.lab)
            keys = ("%by",)
        elif isinstance(by, (FnV, LibV, MethV, Top)) or isinstance(bo, Dct):
            keys = ("%by",)
        else:
            keys = tuple(constof(x) for x, _ in iterate(I, by, n, st)[0])
    for c in keys:
        if c is NOC or isinstance(c, str) and c.startswith("%"):
            continue
        if isinstance(o, Frame):
            if c not in o.cols and c not in o.ix.names and not o.open:
                I.fail("missing-col", n, "group key %r does not exist (columns: %s)" % (c, ", ".join(map(str, list(o.cols)[:12]))), st=st, name=c)
            cc = o.cols[c].cell if c in o.cols else (o.ix.cells[o.ix.names.index(c)] if c in o.ix.names else None)
            if cc is not None and cc.lab:
                labs.add(cc.lab)
    g = Grp(src=ref, keys=keys, as_index=truthy(kw.get("as_index")) is not False, labs=frozenset(labs), level=lvl,
            sort=truthy(kw.get("sort")) is not False)
    return I.new(st, g, n)


def row_labs(f):
    """identifying label kinds present in the rows of a frame"""
    r = set()
    for c in f.cols.values():
        if c.cell is not None and c.cell.lab in ("O", "D", "sim"):
            r.add(c.cell.lab)
    for c in f.ix.cells:
        if c is not None and c.lab in ("O", "D", "sim"):
            r.add(c.lab)
    return r


def grp_cols(I, o, f):
    """[(name, Col)] aggregated by a group-by object"""
    if isinstance(f, Ser):
        return [(f.name, Col(f.cell, dict(f.special)))], True
    if isinstance(o.sel, tuple):
        return [(c, f.cols[c]) for c in o.sel if c in f.cols], False
    if o.sel is not None and o.sel is not NOC:
        return [(o.sel, f.cols.get(o.sel, Col(UNK)))], True
    if o.sel is NOC:
        return [(NOC, Col(as_cell_cols(f)))], True
    return [(c, x) for c, x in f.cols.items() if c not in o.keys], False


def as_cell_cols(f):
    return join_all(list(f.cells())) or UNK


def key_cell(f, key):
    if isinstance(f, Frame):
        if key in f.cols:
            c = f.cols[key]
            return (c.cell if c.cell is not None else c.all()).w(rep=None)
        if key in f.ix.names:
            c = f.ix.cells[f.ix.names.index(key)]
            return c.w(rep=None) if c is not None else c
    if key == "%level" and len(f.ix.cells) >= 1 and f.ix.cells[0] is not None:
        return f.ix.cells[0].w(rep=None)
    return UNK


def agg_rep(o, name, c, rows):
    """typestate of an aggregated amount"""
    if c.rep not in ("I", "C"):
        return c.rep if name in ("sum", "mean", "max", "min", "median", "first", "last") else None
    if "D" in o.labs or not ("D" in rows):
        return c.rep if name in ("sum", "mean", "max", "min", "median", "first", "last") else None
    if "O" in o.labs:
        if name == "sum":
            return "C" if c.rep == "I" else None
        if name in ("max", "last") and c.rep == "C":
            return "C"
        return None
    return None


def grp_method(I, ref, o, name, args, kw, n, st):
    f = asobj(I, o.src, st)
    tags = alltags(I, list(args), kw, st)
    if not isinstance(f, (Frame, Ser)):
        return Top(tags | I.tags_of(o.src, st))
    srct = o.src.tags if isinstance(o.src, Ref) else EMPTY
    cols, single = grp_cols(I, o, f)
    rows = row_labs(f) if isinstance(f, Frame) else {c.lab for c in f.ix.cells if c is not None}
    unkkey = unknown_key(o, f)
    if name in ("aggregate", "agg", "transform", "apply"):
        fn = args[0] if args else kw.get("func")
        c = constof(fn) if fn is not None else NOC
        rest = list(args[1:])
        kw2 = {a: b for a, b in kw.items() if a not in ("func",)}
        if isinstance(c, str):
            if name == "transform":
                return grp_transform(I, ref, o, f, c, cols, single, n, st)
            if c == "quantile" and rest and "q" not in kw2:
                kw2["q"] = rest[0]
            if c not in RED and c not in CUM:
                if not is_pandas_attr("DataFrameGroupBy", c):
                    I.fail("missing-attr", n, "unknown aggregation %r" % c, attr=c, st=st)
            return grp_method(I, ref, o, c, [], kw2, n, st)
        fo = asobj(I, fn, st) if fn is not None else None
        if isinstance(fo, Dct):
            out = []
            for a, v in fo.items.items():
                if isinstance(f, Frame) and isinstance(a, str):
                    need_col(I, o.src, k(a), n, st)
                nm = constof(v)
                if isinstance(f, Frame) and a in f.cols:
                    out.append((a, f.cols[a].map(lambda c: summed(agg_cell(I, o, nm if isinstance(nm, str) else "mean", c, n, rows, f, tags), nm, k(0)).w(**({} if isinstance(nm, str) else {"term": None})))))
            return grp_result(I, o, f, out, False, n, st)
        if isinstance(fn, LibV):
            nm = fn.name.split(".")[-1]
            nm = nm[3:] if nm.startswith("nan") else nm
            if name == "transform":
                return grp_transform(I, ref, o, f, nm, cols, single, n, st)
            if nm in RED:
                return grp_method(I, ref, o, nm, [], {}, n, st)
        if callable_v(fn) and name == "transform" or callable_v(fn):
            out = []
            for a, c in cols:
                sub = I.new(st, Ser(cell=c.cell if c.cell is not None else c.all(), ix=f.ix, ro=f.ro), n)
                st.heap[sub.oid].name = a if isinstance(a, str) else NOC
                if name == "apply" and not single and isinstance(f, Frame):
                    sub = I.new(st, plain(f), n)
                    v = fn_apply(I, fn, sub, n, st, rest)
                    vo = asobj(I, v, st)
                    if isinstance(vo, (Frame, Ser)):
                        return v
                    g = Ser(cell=as_cell(I, v, st), ix=Ix(o.keys, tuple(key_cell(f, x) for x in o.keys), ()))
                    return I.new(st, g, n)
                v = fn_apply(I, fn, sub, n, st, rest)
                out.append((a, Col(as_cell(I, v, st).w(term=None).tag(tags))))
            if name == "transform":
                g = Frame(ix=f.ix, cols=dict(out)) if not single else Ser(cell=out[0][1].cell, ix=f.ix)
                return I.new(st, g, n)
            return grp_result(I, o, f, out, single, n, st)
        if not args and name in ("agg", "aggregate"):
            out = []
            for a, v in kw.items():
                vo = asobj(I, v, st)
                src, nm = None, None
                if isinstance(vo, Seq) and len(vo.segs) == 2:
                    src, nm = constof(vo.segs[0][0]), constof(vo.segs[1][0])
                elif single and isinstance(constof(v), str):
                    src, nm = cols[0][0], constof(v)
                if src is not None and isinstance(f, Frame) and src in f.cols and isinstance(nm, str):
                    out.append((a, f.cols[src].map(lambda c: summed(agg_cell(I, o, nm, c, n, rows, f, EMPTY), nm, k(0)))))
                else:
                    out.append((a, Col(UNK)))
            return grp_result(I, o, f, out, False, n, st)
        return Top(tags | as_cell_cols(f).tags)
    if name == "get_group":
        return I.new(st, filt(I, f, I.tags_of(kw.get("name"), st) if "name" in kw else EMPTY, n), n)
    if name == "sample":
        sampled(I, TOP, args, kw, n, st)
    if name in ("head", "tail", "nth", "filter"):
        return I.new(st, filt(I, f, tags | taint_ord(f), n), n)
    if name in ("cumcount", "ngroup"):
        t = frozenset(["roworder"]) if "ord" in f.ro else EMPTY
        return I.new(st, Ser(cell=Cell(t, D0, "pos", dt="pyint"), ix=f.ix), n)
    if name in CUM:
        along = None
        rem = rows - o.labs
        if rem == {"D"} or ("D" in rem and "O" not in rem):
            along = "D"
        elif "O" in rem and "D" not in rem:
            along = "O"
        elif rem == {"D", "sim"}:
            along = "D"
        t = frozenset(["roworder"]) if "ord" in f.ro else EMPTY
        if "dup" in f.ro and name not in ("cumsum",):
            t = t | {"rowdup"}
        if "dup" in f.ro and name == "cumsum":
            t = t | {"rowdup"}
        def rc(c):
            t2 = t
            if "simv" in c.tags and not unkkey:
                if "sim" not in o.labs:
                    t2 = t2 | {"xsim"}
                elif {"O", "D"} <= rows and "O" not in o.labs and "D" not in o.labs:
                    t2 = t2 | {"xsim"}
            return running(I, name, c, n, st, along, kw).tag(t2 | tags)
        out = [(a, c.map(rc)) for a, c in cols]
        if single:
            c = out[0][1]
            g = Ser(cell=c.cell, special=dict(c.special), ix=f.ix, ro=f.ro)
            g.name = out[0][0]
        else:
            g = Frame(ix=f.ix, cols=dict(out), ro=f.ro)
        return I.new(st, g, n)
    if name in ("size",):
        g = Ser(cell=Cell(tags, D0, dt="pyint"), ix=Ix(o.keys, tuple(key_cell(f, x) for x in o.keys), ()))
        return I.new(st, g, n)
    if name in RED:
        ao = EMPTY
        if name == "quantile":
            q = kw.get("q")
            qc = as_cell(I, q, st) if q is not None else Cell(term=T.const(Fraction_half()))
            mt = I.tags_of(kw["interpolation"], st) if "interpolation" in kw else EMPTY
            I.event("quantile", n, "groupby quantile", method=kw.get("interpolation"), tags=mt)
            by = "by:" + ",".join(sorted(str(x) for x in o.labs if x))
            def qcell(c):
                qt = T.mul(T.const(100), qc.term) if qc.term is not None else None
                t = T.atom("PCT", T.atom("rows", c.term or T.atom("anon"), by), qt) if qt is not None else None
                return Cell(c.tags | qc.tags | mt, dim_norm(c.dim) if c.dim is not None else None, None, c.rep if c.rep in ("I", "C") else None, t, NOC, "num")
            out = [(a, c.map(qcell)) for a, c in cols]
            return grp_result(I, o, f, out, single, n, st)
        mc = kw.get("min_count", k(0))
        out = [(a, c.map(lambda x: summed(agg_cell(I, o, name, x, n, rows, f, tags), name, mc))) for a, c in cols]
        return grp_result(I, o, f, out, single, n, st)
    return None


def summed(c, name, min_count):
    """a sum over no amount at all is zero unless told otherwise; other aggregates of nothing are missing"""
    if not miss.has(c) or name not in ("sum", "prod"):
        return c
    m = constof(min_count)
    return c if isinstance(m, int) and m >= 1 else miss.less(c, miss.MISS).tag({miss.ZEROED} if isinstance(m, int) else {"?"})


def Fraction_half():
    from fractions import Fraction
    return Fraction(1, 2)


def unknown_key(o, f):
    return any(c is NOC for c in o.keys) or "%by" in o.keys


def agg_cell(I, o, name, c, n, rows, f, tags):
    if c is None:
        return None
    labs = sorted(x for x in o.labs)
    rt = "by:" + ",".join(labs) if labs else None
    if f.ix.special:
        rt = None
    for ix in f.ix.cells:
        if ix is not None and ix.rep is not None:
            rt = (rt or "") + "|" + str(ix.rep)
    r = red_cell(I, name, c, n, rt, whole=False)
    r = r.w(rep=agg_rep(o, name, c, rows))
    t = set(tags)
    if "dup" in f.ro and name not in ("sum", "any", "all", "nunique", "size") and c.dim == D1:
        t.add("rowdup")
    if "ord" in f.ro and name in ("first", "last"):
        t.add("roworder")
    if ("simv" in c.tags or "simpos" in c.tags) and "sim" in rows and "sim" not in o.labs and not unknown_key(o, f):
        t.add("xsim")
    return r.tag(frozenset(t))


def grp_transform(I, ref, o, f, name, cols, single, n, st):
    rows = row_labs(f) if isinstance(f, Frame) else set()
    def tc(c):
        if c is None:
            return None
        if name in CUM:
            return running(I, name, c, n, st, None, {})
        r = summed(agg_cell(I, o, name, c, n, rows, f, EMPTY), name, k(0))
        if name in CUM and "simv" in c.tags and "sim" in rows and "sim" not in o.labs:
            r = r.tag({"xsim"})
        if c.lab and name in ("min", "max", "first", "last"):
            r = r.w(lab=c.lab)
        return r
    out = [(a, c.map(tc)) for a, c in cols]
    if single:
        c = out[0][1]
        g = Ser(cell=c.cell, special=dict(c.special), ix=f.ix, ro=f.ro)
        g.name = out[0][0]
    else:
        g = Frame(ix=f.ix, cols=dict(out), ro=f.ro)
    return I.new(st, g, n)


def grp_result(I, o, f, out, single, n, st):
    kc = [(x if isinstance(x, str) and not x.startswith("%") else None, key_cell(f, x)) for x in o.keys]
    sp = ()
    # a special value among the keys (e.g. a total row) stays a separate group
    if len(o.keys) == 1 and isinstance(f, Frame) and o.keys[0] in f.cols:
        col = f.cols[o.keys[0]]
        sp = tuple(v.const for v in col.special.values() if isinstance(v.const, (str, AbsStr)))
    ro = EMPTY
    # grouping on every identifying label leaves one row per combination
    rows = row_labs(f) if isinstance(f, Frame) else set()
    if not (rows <= o.labs):
        ro = EMPTY
    if not o.sort:
        ro = f.ro & {"ord"}
    spc = sp if all(set(c.special) <= set(sp) or not c.special for _, c in out) else ()
    if not spc:
        out = [(a, Col(c.all())) for a, c in out]
    if o.as_index:
        ix = Ix(tuple(a for a, _ in kc), tuple(b for _, b in kc), spc)
        if single:
            c = out[0][1]
            g = Ser(cell=c.cell, special=dict(c.special), ix=ix, ro=ro)
            g.name = out[0][0] if out[0][0] is not NOC else NOC
        else:
            g = Frame(ix=ix, cols=dict(out), ro=ro)
    else:
        g = Frame(ro=ro)
        if spc:
            g.ix = Ix((None,), RANGE.cells, spc)
        for a, b in kc:
            if a is not None:
                g.cols[a] = Col(b, {s: const_cell(s) for s in spc})
        for a, c in out:
            if a is NOC:
                g.open = True
                continue
            g.cols[a] = c
    if isinstance(f, Frame) and f.rest is not None and not single and not isinstance(o.sel, tuple):
        g.rest = f.rest.map(lambda c: red_cell(I, "sum", c, n, whole=False))
        g.restlab = f.restlab
    return I.new(st, g, n)


# ---- module-level functions ---------------------------------------------------
def pd_call(I, name, args, kwargs, n, st):
    tags = alltags(I, args, kwargs, st)
    api = I.api["modules"]["pandas"]
    new = lambda g: I.new(st, g, n)
    if name in api and name not in ("DataFrame", "Series"):
        check_sig(I, api.get(name), "pandas." + name, args, kwargs, n, st)
    sig = api.get(name)
    kw = dict(kwargs)
    if sig:
        for p, v in zip([p[0] for p in sig if p[1] in ("p", "n")], args):
            kw.setdefault(p, v)
    if name in ("DataFrame", "core.frame.DataFrame"):
        names = ("data", "index", "columns", "dtype", "copy")
        for a in kwargs:
            if a not in names and a not in ("*", "**"):
                I.fail("bad-call", n, "pandas.DataFrame() got an unexpected keyword argument '%s'" % a, st=st)
        for p, v in zip(names, args):
            kw[p] = v
        if isinstance(kw.get("data"), Un):
            return I.per_atom(kw["data"], lambda a, s: pd_call(I, name, [], dict(kw, data=a), n, s), st)
        g = build_frame(I, kw.get("data"), kw.get("index"), kw.get("columns"), n, st)
        if miss.FORM[0]:
            cv = kw.get("columns")
            miss.assembled(I, g, asobj(I, kw["data"], st) if "data" in kw else None, g.ix if kw.get("index") not in (None, NONE) else None,
                           ix_from(I, cv, st) if cv not in (None, NONE) and g.rest is not None else None)
        if truthy(kw.get("copy")) is True:
            g.base = None
        return new(g)
    if name in ("DataFrame.from_dict", "DataFrame.from_records"):
        orient = constof(kwargs.get("orient", k("columns")))
        data = args[0] if args else kwargs.get("data")
        if orient == "columns":
            return new(build_frame(I, data, kwargs.get("index"), kwargs.get("columns"), n, st))
        d = asobj(I, data, st)
        g = Frame(ix=Ix((None,), (None,), ()))
        names, lab = col_spec(I, kwargs["columns"], st) if "columns" in kwargs else (None, None)
        cell = Cell(I.tags_of(data, st))
        if isinstance(d, Dct):
            cs = [as_cell(I, v, st) for v in d.items.values()] + ([as_cell(I, d.rest, st)] if d.rest is not None else [])
            cell = join_all(cs) or cell
            labs = {x[1].lab for x in d.items if isinstance(x, tuple) and x[:1] == ("%",)}
            g.ix = Ix((None,), (Cell(lab=labs.pop() if len(labs) == 1 else None),), tuple(x for x in d.items if isinstance(x, (str, AbsStr))))
        if names:
            for i, c in enumerate(names):
                g.cols[c] = Col(cell, {s: cell for s in g.ix.special})
        else:
            g.cols[0] = Col(cell)
            g.open = True
        return new(g)
    if name in ("Series", "core.series.Series"):
        names = ("data", "index", "dtype", "name", "copy", "fastpath")
        for a in kwargs:
            if a not in names and a not in ("*", "**"):
                I.fail("bad-call", n, "pandas.Series() got an unexpected keyword argument '%s'" % a, st=st)
        for p, v in zip(names, args):
            kw[p] = v
        data = kw.get("data")
        if isinstance(data, Un):
            return I.per_atom(data, lambda a, s: pd_call(I, name, [], dict(kw, data=a), n, s), st)
        d = asobj(I, data, st) if data is not None else None
        idx = kw.get("index")
        g = Ser(ix=ix_from(I, idx, st) if idx is not None and idx != NONE else RANGE)
        g.name = constof(kw["name"]) if "name" in kw else None
        if isinstance(d, Ser):
            g.cell, g.special, g.ro = d.cell, dict(d.special), d.ro
            if idx is None or idx == NONE:
                g.ix = d.ix
            else:
                if align_event(I, g.ix, d.ix, n, "series construction"):
                    g.cell = NANC
                g.special = {s: c for s, c in g.special.items() if s in g.ix.special}
            g.base = data.oid
            if "name" not in kw:
                g.name = d.name
        elif isinstance(d, Idx):
            c = d.ix.cells[0] if len(d.ix.cells) == 1 else UNK
            g.cell = c.w(dt="int") if c is not None and c.dt == "label" else c
            g.special = {s: const_cell(s) for s in d.ix.special}
            if g.special and g.ix == RANGE:
                g.ix = Ix((None,), RANGE.cells, d.ix.special)
            elif miss.FORM[0] and g.ix == RANGE and py.size_term(d.ix) is not None:
                g.ix = miss.rows_n(g.ix)
            if "name" not in kw:
                g.name = d.ix.names[0] if len(d.ix.names) == 1 else None
        elif isinstance(d, Dct):
            g.ix = Ix((None,), (None,), ())
            for kk, v in d.items.items():
                if isinstance(kk, (str, AbsStr)):
                    g.special[kk] = as_cell(I, v, st)
                    g.ix = g.ix.w(special=g.ix.special + (kk,))
                elif isinstance(kk, tuple) and kk[:1] == ("%",):
                    g.cell = as_cell(I, v, st)
                    g.ix = g.ix.w(cells=(kk[1],))
            if d.rest is not None:
                g.cell = as_cell(I, d.rest, st)
                g.ix = g.ix.w(cells=(UNK,))
        elif isinstance(d, Seq) and not d.exact() and g.ix.special and len(d.segs) == len(g.ix.special) + 1 and d.segs[0][1] \
                and not any(m for _, m in d.segs[1:]) and all(isinstance(x, Sc) for x, _ in d.segs):
            g.cell = d.segs[0][0].cell
            g.special = {s: x.cell for s, (x, _) in zip(g.ix.special, d.segs[1:])}
        elif isinstance(d, (Arr, Seq)):
            a = to_arr(I, data, st)
            if g.ix.cells == (None,) and g.ix.special:
                if a.exact is not None and len(a.exact) == len(g.ix.special):
                    g.special = dict(zip(g.ix.special, a.exact))
                else:
                    g.special = {s: a.special.get(s, a.cell) for s in g.ix.special}
            else:
                g.cell = a.cell
                g.special = {s: a.special.get(s, a.cell) for s in g.ix.special}
            g.ro = a.ro
            if isinstance(d, Arr):
                g.base = data.oid
        elif data is None or data == NONE:
            g.cell = NANC if idx is not None else UNK
        else:
            c = as_cell(I, data, st)
            g.cell = c if g.ix.cells != (None,) else None
            g.special = {s: c for s in g.ix.special}
        return new(g)
    if name.startswith("DataFrame.") or name.startswith("Series."):
        if args:
            return method(I, MethV(args[0], name.split(".", 1)[1]), list(args[1:]), kwargs, n, st)
        return TOP
    if name == "melt":
        fr = kw.get("frame")
        if isinstance(fr, Un):
            return I.per_atom(fr, lambda a, s: pd_call(I, name, [a], {x: y for x, y in kw.items() if x != "frame"}, n, s), st)
        o = asobj(I, fr, st)
        if not isinstance(o, Frame):
            return Top(tags)
        return melt(I, fr, o, kw, n, st)
    if name == "merge":
        return merge(I, kw.get("left"), kw.get("right"), kw, n, st)
    if name == "concat":
        return concat(I, args, kw, n, st)
    if name in ("isnull", "isna", "notnull", "notna"):
        return lift(I, [args[0] if args else kw.get("obj")], lambda c: cell_unary(I, name, c, n), n, st)
    if name in ("pivot", "pivot_table"):
        fr = kw.get("data")
        o = asobj(I, fr, st)
        if isinstance(o, Frame):
            return pivot(I, fr, o, kw, n, st, name)
        return Top(tags)
    if name in ("unique",):
        return new(Arr(cell=as_cell(I, args[0], st)))
    if name == "read_csv":
        src = kw.get("filepath_or_buffer", args[0] if args else None)
        path = I.np.path_text(src, st) if src is not None else None
        opts_ = {a: (constof(v) if not isinstance(v, Ref) else v) for a, v in list(zip(("filepath_or_buffer", "sep"), args)) + list(kw.items())}
        opts_.pop("filepath_or_buffer", None)
        rows = csv_rows(path, opts_)
        I.event("read-file", n, "reads %s" % (path or "a file"), path=path, opts=opts_, rows=rows)
        if rows and not (set(opts_) - {"sep", "delimiter", "encoding", "engine", "low_memory"}) and len(set(rows[0])) == len(rows[0]):
            # README: the sample datasets "always represent incremental losses"
            t = lambda c: T.atom("csv", os.path.basename(path), c)
            lab = {"origin": Cell(lab="O", dt="int", term=t("origin")), "dev": Cell(lab="D", dt="int", term=t("dev")),
                   "value": Cell(tags, dim=D1, rep="I", dt="num", term=t("value"))}
            g = Frame(cols={c: Col(lab.get(c, Cell(tags, term=t(c)))) for c in rows[0]}, ix=RANGE, ro=frozenset(["ord", "dup"]))
            return new(g)
        g = Frame(open=True, ro=frozenset(["ord", "dup"]))
        g.rest = Col(Cell(tags))
        return new(g)
    if name in ("to_numeric", "to_datetime"):
        return lift(I, [args[0]], lambda c: c, n, st) if args else TOP
    if name in ("Index", "RangeIndex", "Int64Index", "MultiIndex", "CategoricalIndex"):
        d = kw.get("data", args[0] if args else None)
        if name == "RangeIndex":
            return new(Idx(ix=RANGE))
        return new(Idx(ix=ix_from(I, d, st)))
    if name in ("cut", "qcut", "get_dummies", "crosstab", "factorize", "date_range", "Categorical", "Timestamp", "Timedelta", "wide_to_long", "eval"):
        return Top(tags)
    if name in ("set_option", "reset_option", "options"):
        return NONE
    if name == "option_context":
        return new(Opq(typ="option_context"))
    I.unmodelled["pandas." + name] = I.unmodelled.get("pandas." + name, 0) + 1
    return Top(tags)


def csv_rows(path, options):
    """rows of a shipped data file as the reader would split them, None when unknown or absent"""
    sep = options.get("delimiter", options.get("sep", ","))
    if path is None or not isinstance(sep, str) or len(sep) != 1 or not path.endswith(".csv") or not os.path.isfile(path):
        return None
    try:
        with open(path, newline="", encoding="utf-8-sig") as fh:
            return [r for r in csv.reader(fh, delimiter=sep) if r]
    except (OSError, UnicodeDecodeError, csv.Error):
        return None
