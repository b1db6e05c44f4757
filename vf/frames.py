"""Data frames in abstract evaluation: what a collected frame's cells and columns are, whichever way they are read.

A frame is a root unknown with operations applied to it.  Reading the first row of `frame.select(exprs)` gives one
cell per output column, Op("cell", frame, expr, 0), however it is read: .row(0), .item(0, i), [0, i], get_columns()[i][0],
to_series(i)[0], rows()[0][i], one select per column or one for all.  pl.col([a, b]) is expanded to its columns."""
from __future__ import annotations
from . import pysym as S
from .pysym import Const, Sym, Op, Star, LList, LDict, EXT, freeze

EVAL = {"lazy", "collect", "clone", "cache", "rechunk"}
OPS = EVAL | {"select", "with_columns", "filter", "drop", "sort", "head", "tail", "limit", "slice", "drop_nulls", "unique", "with_row_index", "rename", "join", "sample", "unnest", "explode", "select_seq", "with_columns_seq", "agg", "reverse", "cast", "fill_null", "drop_nans"}
TYPES = {"PolarsFrame", "pl.DataFrame", "pl.LazyFrame", "DataFrame", "LazyFrame"}

def meth(t):
    """(receiver, method, args, kw) of a method call term"""
    if isinstance(t, Op) and t.op == "call" and isinstance(t.args[0], Op) and t.args[0].op == "attr":
        return t.args[0].args[0], t.args[0].args[1], t.args[1], t.args[2]
    return None

def strip_names(e):
    """an expression without what only names its output"""
    while True:
        m = meth(e)
        if m and m[1] == "alias": e = m[0]; continue
        if m and m[1] in ("prefix", "suffix", "keep", "to_lowercase", "to_uppercase", "map") and isinstance(m[0], Op) and m[0].op == "attr" and m[0].args[1] == "name": e = m[0].args[0]; continue
        return e

def subst(t, old, new):
    if t == old: return new
    if isinstance(t, Star): return Star(subst(t.t, old, new))
    if isinstance(t, tuple): return tuple(subst(x, old, new) for x in t)
    if isinstance(t, Op): return Op(t.op, *[subst(x, old, new) for x in t.args])
    return t

def multi(t):
    """the column sets inside an expression, each a polars.col call naming several columns"""
    out = []
    for x in spine(t):
        if isinstance(x, Op) and x.op == "call" and x.args[0] == EXT("polars.col"):
            names = []
            for a in x.args[1]:
                names += list(a.args) if isinstance(a, Op) and a.op in ("list", "tuple") else [a]
            if len(names) != 1 or (x.args[1] and isinstance(x.args[1][0], Op) and x.args[1][0].op in ("list", "tuple")): out.append((x, names))
    return out

def spine(t):
    """the subterms of an expression, not those of the frames and values it refers to"""
    yield t
    if isinstance(t, Star): yield from spine(t.t)
    elif isinstance(t, tuple):
        for x in t: yield from spine(x)
    elif isinstance(t, Op) and t.op not in ("names", "cell", "column", "schema_of", "names_of", "rows"):
        for x in t.args: yield from spine(x)

def wild(t):
    """outputs several columns whose number is not known"""
    for x in spine(t):
        if isinstance(x, Op) and x.op == "call":
            f = x.args[0]
            if isinstance(f, Op) and f.op == "ext" and (f.args[0] in ("polars.all", "polars.exclude") or f.args[0].startswith("polars.selectors.")): return True
    return False

def outputs(args, kw):
    """the output expressions of select(args, **kw): [Term or Star(Term)]"""
    flat = []
    for a in args:
        flat += list(a.args) if isinstance(a, Op) and a.op in ("list", "tuple") else [a]
    for k, v in kw: flat.append(Op("call", Op("attr", v, "alias"), (Const(k),), ()))
    out = []
    for e in flat:
        if isinstance(e, Star): out.append(e); continue
        if isinstance(e, Op) and e.op in ("elem",) or isinstance(e, Const) and isinstance(e.v, str) or isinstance(e, Sym): e = Op("call", EXT("polars.col"), (e,), ())
        if wild(e):
            out.append(Star(e)); continue
        ms = multi(e)
        if not ms: out.append(e); continue
        n = {len(x[1]) for x in ms}
        if len(n) != 1 or any(isinstance(y, Star) for _, ys in ms for y in ys):
            out.append(Star(e)); continue
        for i in range(n.pop()):
            x = e
            for c, names in ms: x = subst(x, c, Op("call", EXT("polars.col"), (names[i],), ()))
            out.append(x)
    return out

def rootname(e):
    """output name of an expression"""
    m = meth(e)
    if m and m[1] == "alias" and m[2]: return m[2][0]
    if m and isinstance(m[0], Op) and m[0].op == "attr" and m[0].args[1] == "name": return None
    if m: return rootname(m[0])
    if isinstance(e, Op) and e.op == "call" and e.args[0] == EXT("polars.col") and len(e.args[1]) == 1: return e.args[1][0]
    if isinstance(e, Op) and e.op == "bin": return rootname(e.args[1])
    if isinstance(e, Op) and e.op == "call" and e.args[0] == EXT("polars.plugins.register_plugin_function"):
        a = dict(e.args[2]).get("args")
        if isinstance(a, Op) and a.op in ("list", "tuple") and a.args and not isinstance(a.args[0], Star): return rootname(a.args[0])
        return None
    if isinstance(e, Op) and e.op == "call" and isinstance(e.args[0], Op) and e.args[0].op == "pkg" and e.args[1] and isinstance(e.args[1][0], Op) and e.args[1][0].op in ("elem", "sub", "key", "fstr"): return e.args[1][0]
    if isinstance(e, Op) and e.op == "call" and isinstance(e.args[0], Op) and e.args[0].op == "pkg" and e.args[1]: return e.args[1][0] if not isinstance(e.args[1][0], Op) else rootname(e.args[1][0])
    return None

def bare(t):
    """a frame without evaluation steps"""
    while True:
        m = meth(t)
        if m and m[1] in EVAL: t = m[0]
        else: return t

def norm(t):
    if isinstance(t, Star): return Star(norm(t.t))
    if isinstance(t, tuple): return tuple(norm(x) for x in t)
    if not isinstance(t, Op): return t
    m = meth(t)
    if m and m[1] in ("lazy", "collect", "clone"): return norm(m[0])
    return Op(t.op, *[norm(x) for x in t.args])

class Model:
    def __init__(self, frames=("df", "data", "self._df", "X")): self.frames = set(frames)
    def is_frame(self, t, I):
        if isinstance(t, Sym): return t.name in self.frames or bool(set(I.typ.get(t, ())) & TYPES)
        if isinstance(t, Op) and t.op == "attr" and isinstance(t.args[0], Sym) and t.args[0].name == "self": return "self." + t.args[1] in self.frames
        m = meth(t)
        return bool(m) and m[1] in OPS and self.is_frame(m[0], I)
    def outs(self, t):
        """(frame the expressions are evaluated on, output expressions) or None"""
        t = bare(t)
        m = meth(t)
        if m and m[1] in ("select", "select_seq"): return norm(m[0]), outputs(m[2], m[3])
        return None
    def cell(self, base, e, i=Const(0)): return Op("cell", base, norm(strip_names(e)), i)
    def column(self, base, e): return Op("column", base, e)
    def row(self, t, i):
        o = self.outs(t)
        if o is None: return None
        return LList([Star(self.cell(o[0], e.t, i)) if isinstance(e, Star) else self.cell(o[0], e, i) for e in o[1]], kind="tuple")
    def nth(self, t, c):
        o = self.outs(t)
        if o is None: return None
        base, es = o
        if isinstance(c, Const) and isinstance(c.v, int):
            if any(isinstance(e, Star) for e in es[:c.v + 1] if c.v >= 0) or (c.v < 0 and any(isinstance(e, Star) for e in es)): return None
            try: return base, es[c.v]
            except IndexError: return None
        hits = [e for e in es if not isinstance(e, Star) and rootname(e) == c]
        if len(hits) == 1: return base, hits[0]
        return None
    # ---- hooks
    def call(self, I, recv, name, args, kw):
        recv = freeze(recv) if not isinstance(recv, S.Term) else recv
        if isinstance(recv, Op) and recv.op == "column":
            if name in ("item", "first", "get", "max", "min") and (not args or args[0] == Const(0)) and name in ("item", "first", "get"): return self.cell(recv.args[0], recv.args[1])
            if name in ("to_list",): return None
            return None
        if isinstance(recv, Op) and recv.op == "schema_of":
            if name == "names": return Op("names", recv.args[0])
            if name == "len": return Op("len", Op("names", recv.args[0]))
            return None
        if not self.is_frame(recv, I): return None
        if name == "collect_schema": return Op("schema_of", norm(recv))
        if name == "row":
            i = args[0] if args else kw.get("index")
            if i is None: return None
            r = self.row(recv, freeze(i))
            if r is None: return None
            named = kw.get("named")
            if named == Const(True):
                o = self.outs(recv)
                ns = [rootname(e) if not isinstance(e, Star) else None for e in o[1]]
                if None in ns: return None
                return LDict(list(zip(ns, r.e)))
            return r
        if name == "rows" and not args and not kw: return Op("rows", norm(recv))
        if name == "item":
            a = list(args) + [kw[k] for k in ("row", "column") if k in kw]
            if not a: a = [Const(0), Const(0)]
            if len(a) == 2:
                x = self.nth(recv, freeze(a[1]))
                if x: return self.cell(x[0], x[1], freeze(a[0]))
            return None
        if name in ("to_series", "get_column"):
            x = self.nth(recv, freeze(args[0]) if args else Const(0))
            return self.column(*x) if x else None
        if name == "get_columns":
            o = self.outs(recv)
            if o is None: return None
            return LList([Star(self.column(o[0], Op("output", e.t))) if isinstance(e, Star) else self.column(o[0], e) for e in o[1]])
        return None
    def getattr(self, I, o, a):
        if isinstance(o, Op) and o.op == "column" and a == "name":
            e = o.args[1]
            if isinstance(e, Op) and e.op == "output" and not wild(e.args[0]) and rootname(e.args[0]) is not None: return rootname(e.args[0])
            if isinstance(e, Op) and e.op == "output": return Op("elem", Op("names_of", o.args[0], e.args[0]))
            return rootname(e)
        if a in ("columns", "schema") and isinstance(o, S.Term) and self.is_frame(o, I): return Op("names", norm(o)) if a == "columns" else Op("schema_of", norm(o))
        return None
    def sub(self, I, o, k):
        if isinstance(o, Op) and o.op == "column" and isinstance(k, Const) and isinstance(k.v, int): return self.cell(o.args[0], o.args[1].args[0] if isinstance(o.args[1], Op) and o.args[1].op == "output" else o.args[1], k)
        if isinstance(o, Op) and o.op == "rows":
            return self.row(o.args[0], k)
        if isinstance(o, S.Term) and self.is_frame(o, I):
            if isinstance(k, LList) and len(k.e) == 2: k = Op("tuple", *[freeze(x) for x in k.e])
            if isinstance(k, Op) and k.op == "tuple" and len(k.args) == 2:
                x = self.nth(o, k.args[1])
                return self.cell(x[0], x[1], k.args[0]) if x else None
            if isinstance(k, (Const, Op, Sym)) and not (isinstance(k, Const) and isinstance(k.v, int)):
                x = self.nth(o, k)
                return self.column(*x) if x else None
        return None
