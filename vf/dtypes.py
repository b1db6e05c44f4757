"""Data types: what a native routine declares to return, and what the values it returns are."""
from __future__ import annotations
import re
from .msym import T, mk, walk, show
from .rowlen import call, last

PRIM = {"Float64Type": "Float64", "Float32Type": "Float32", "UInt32Type": "UInt32", "UInt64Type": "UInt64", "Int32Type": "Int32", "Int64Type": "Int64", "StringType": "String", "BooleanType": "Boolean",
        "UInt8Type": "UInt8", "UInt16Type": "UInt16", "Int8Type": "Int8", "Int16Type": "Int16", "BinaryType": "Binary", "Int128Type": "Int128"}
RUST = {"f64": "Float64", "f32": "Float32", "u32": "UInt32", "u64": "UInt64", "i32": "Int32", "i64": "Int64", "bool": "Boolean", "&str": "String", "std::string::String": "String", "u8": "UInt8", "u16": "UInt16", "i8": "Int8", "i16": "Int16", "usize": None}
ACC = {"f64": "Float64", "f32": "Float32", "u32": "UInt32", "u64": "UInt64", "i32": "Int32", "i64": "Int64", "bool": "Boolean", "str": "String", "u8": "UInt8", "u16": "UInt16", "i8": "Int8", "i16": "Int16", "i128": "Int128"}
SIMPLE = set(PRIM.values()) | {"Null", "Date", "Time"}

def text(t): return t.a[0] if isinstance(t, T) and t.k == "str" else None
def name_of_dtype(t):
    """a DataType value"""
    if t.k == "var":
        n = t.a[0].split("::")[-1]
        if n in SIMPLE: return n
        if n == "List": return ("List", name_of_dtype(t.a[1]))
        if n == "Array": return ("Array", name_of_dtype(t.a[1]), t.a[2].a[0] if t.a[2].k == "int" else None)
        if n == "Struct": return ("Struct", fields(t.a[1]))
        return None
    a = call(t, "new")
    if a and len(a) == 1: return name_of_dtype(a[0])           # Box::new
    a = call(t, "dtype")
    if a: return at(a[0])
    return None
def at(t):
    """the type of input k, for a Field or a Series"""
    if t.k == "idx" and t.a[0].k == "arg" and t.a[0].a[-1] == 1 and t.a[1].k == "int": return ("In", t.a[1].a[0])
    return None
def fields(t):
    a = call(t, "into_vec", "to_vec", "into_boxed_slice", "from_elem")
    if a: t = a[0]
    if t.k == "array": return tuple(field(x) for x in t.a if isinstance(x, T))
    return None
def field(t):
    a = call(t, "new")
    if a and len(a) == 2: return (label(a[0]), name_of_dtype(a[1]))
    a = call(t, "clone")
    if a: t = a[0]
    if at(t): return (("In", at(t)[1]), at(t))
    return (None, None)
def label(t):
    if t is None: return None
    s = text(t)
    if s is not None: return s
    a = call(t, "name")
    if a and at(a[0]): return at(a[0])
    a = call(t, "into", "from", "from_str", "from_static", "new", "clone")
    if a: return label(a[0])
    return None

def declared(P, plugin):
    """[(conditions, type)] a field function can give; (type, name)"""
    n = P.n
    f = n.prog.resolve(plugin.field_fn)[0] if isinstance(plugin.field_fn, str) else plugin.field_fn
    fam = [g for g in n.prog.fns.values() if g.canon == f.canon or g.canon.startswith(f.canon + "::")]
    for g in fam:
        for b, t in g.calls():
            if not t.callee: continue
            if "with_dtype" in t.callee:
                x = P.n.w.view(g).term(t.args[1])
                return [({}, x[1][1].split("::")[-1])] if x[0] == "agg" and x[1][0] == "variant" else None
            for h in n.prog.resolve(t.callee):
                if "Field" in h.ret:
                    out, q = [], P.nf()
                    own = {mk("arg", h.canon, 2): mk("arg", plugin.body.canon, 3 if plugin.ctx_arg and plugin.ctx_arg == 2 else 2)}
                    for c, v, p in q.paths(h):
                        c = {q.subst(k, own): b for k, b in c.items()}
                        if v.k == "var" and v.a[0] == "Ok":
                            x = v.a[1]
                            out.append((c, field(x)[1]))
                        elif call(v, "map_to_float_dtype"): out.append((c, "float of input 0"))
                        elif v.k == "var" and v.a[0] == "Err": continue
                        else: out.append((c, None))
                    return out
    return None

class Returned:
    """types of returned column terms (raw values of the interpreter, whose typed constructors keep their types)"""
    def __init__(self, P=None): self.memo, self.P = {}, P
    def of(self, t, d=0):
        """type of a Series / Column / ChunkedArray term"""
        if t in self.memo: return self.memo[t]
        r = self.memo[t] = self.of_(t, d) if d < 40 else None
        return r
    def of_(self, t, d):
        if t.k == "pay": return self.of(t.a[0], d + 1)
        if t.k == "var" and t.a[0] in ("Ok", "Some"): return self.of(t.a[1], d + 1)
        if at(t): return at(t)
        if t.k == "lv":
            for n, v in t.a[0].a[1]:
                if n == t.a[1]: return self.of(v, d + 1)
        if t.k == "mut": return self.of(t.a[3], d + 1)
        if t.k != "call": return None
        l, ty = last(t), t.a[1]
        if l in ("into_series", "into_column"):
            m = re.search(r"ChunkedArray<([\w:]+)> as", ty)
            b = m.group(1).split("::")[-1] if m else None
            if b in PRIM: return PRIM[b]
            if b == "ListType": return ("List", self.inner(t.a[2], d + 1))
            if b == "StructType": return ("Struct", self.struct(t.a[2], d + 1))
            if b is None: return self.of(t.a[2], d + 1)
            return None
        if l in ("from_iter", "from_vec", "new", "collect", "from_iter_options"):
            m = re.search(r"Series as [\w:]*FromIterator<(?:std::option::Option<)?([&\w:]+)", ty) or re.search(r"Series as [\w:]*NamedFrom\w*<std::vec::Vec<(?:std::option::Option<)?([&\w:]+)", ty) or re.search(r"Series as [\w:]*NamedFrom<\[([&\w]+); \d+\]", ty)
            if m: return RUST.get(m.group(1))
            a = call(t, "new")
            if a and t.a[0].startswith("Column::") or t.a[0].endswith("Column::new"): return self.data(a[1], d + 1) if a else None
        if l == "get_dtype": return None
        if l == "full_null" and len(t.a) == 5: return name_of_dtype(t.a[4])
        if l == "new_empty" and len(t.a) == 4: return name_of_dtype(t.a[3])
        a = call(t, "new_scalar")
        if a: return self.scalar(a[1])
        a = call(t, "as_materialized_series", "take_materialized_series", "rename", "with_name", "clone", "into", "from", "rechunk", "take_unchecked", "reverse", "sort", "slice", "head", "tail", "filter")
        if a: return self.of(a[0], d + 1)
        a = call(t, "cast", "strict_cast")
        if a and len(a) == 2: return name_of_dtype(a[1])
        a = call(t, "drop_in_place", "column")
        if a:
            s = self.frame(a[0], d + 1)
            n = label(a[1])
            return dict(s).get(n) if s is not None and n is not None else None
        a = call(t, "into_struct")
        if a: return ("Struct", self.frame(a[0], d + 1))
        if l in ("from_series", "from_columns"): return ("Struct", self.struct(t, d + 1))
        if t.a[0].startswith("Series::") and l in ACC: return ACC[l]
        return None
    def scalar(self, t):
        if t.k == "cast": return RUST.get(t.a[0])
        if t.k == "pay":
            a = call(t.a[0], "get", "first", "sum", "mean", "max", "min")
            return self.chunked(a[0]) if a else self.scalar(t.a[0])
        if t.k == "bin" and t.a[0] in ("Add", "Sub", "Mul", "Div"): return self.scalar(t.a[1]) or self.scalar(t.a[2])
        if t.k == "un" : return self.scalar(t.a[1])
        if t.k == "const" or t.k == "sym": return "Float64" if "f64" in str(t.a[0]) else "Float32" if "f32" in str(t.a[0]) else None
        if t.k in ("float",): return "Float64"
        if t.k == "call" and "f64" in t.a[0]: return "Float64"
        return None
    def chunked(self, t):
        if t.k == "pay": return self.chunked(t.a[0])
        if t.k == "call" and t.a[0].startswith(("Series::", "Column::")): return ACC.get(last(t))
        return None
    def data(self, t, d):
        if t.k == "array" and t.a: return self.scalar(t.a[0])
        return None
    def chain(self, t):
        """the constructor of a builder behind in-place changes, loops and finish"""
        for _ in range(200):
            if t.k == "mut": t = t.a[3]
            elif t.k == "lv":
                x = [v for n, v in t.a[0].a[1] if n == t.a[1]]
                if not x: return t
                t = x[0]
            elif t.k == "pay": t = t.a[0]
            elif call(t, "finish", "into_series", "into_column", "clone", "with_name"): t = t.a[2]
            else: return t
        return t
    def inner(self, t, d):
        r = self.chain(t)
        a = call(r, "new")
        if a and "ListPrimitiveChunkedBuilder" in r.a[0] and len(a) == 4: return name_of_dtype(a[3])
        if a and "ListStringChunkedBuilder" in r.a[0]: return "String"
        a = call(r, "get_list_builder")
        if a: return name_of_dtype(a[0])
        if self.P is not None and call(r, "from_chunk_iter"):
            out = set()
            for y in walk(r):
                if y.k == "closure": out |= self.built(y.a[0])
            if len(out) == 1: return out.pop()
        return None
    def built(self, span):
        """element types of the list builders made in a closure"""
        n = self.P.n
        f = n.prog.by_closure.get(span)
        out = set()
        for g in n.w.family(f) if f is not None else ():
            for b, t in g.calls():
                if t.callee and re.search(r"ListPrimitiveChunkedBuilder.*::new$", t.callee):
                    x = n.w.view(g).term(t.args[3])
                    out.add(x[1][1].split("::")[-1] if x[0] == "agg" and x[1][0] == "variant" else None)
        return out
    def struct(self, t, d):
        if t.k == "pay": return self.struct(t.a[0], d)
        a = call(t, "from_series", "from_columns")
        if a and len(a) == 3:
            x = a[2]
            y = call(x, "iter", "into_iter")
            if y: x = y[0]
            if x.k == "iter": x = x.a[0]
            if x.k == "array": return tuple((self.label(y, d + 1), self.of(y, d + 1)) for y in x.a if isinstance(y, T))
            return None
        a = call(t, "into_struct")
        if a: return self.frame(a[0], d + 1)
        if t.k == "call" and last(t) in ("clone", "with_name"): return self.struct(t.a[2], d + 1)
        return None
    def label(self, t, d=0):
        """the name of a column term"""
        if d > 30: return None
        if at(t): return at(t)
        if t.k == "pay" or (t.k == "var" and t.a[0] in ("Ok", "Some")): return self.label(t.a[0] if t.k == "pay" else t.a[1], d + 1)
        if t.k == "mut":
            if last(t) == "rename": return label(t.a[4]) if len(t.a) > 4 else None
            return self.label(t.a[3], d + 1)
        if t.k == "lv": return self.label(self.chain(t), d + 1) if self.chain(t) is not t else None
        if t.k != "call": return None
        a, l = t.a[2:], last(t)
        if l in ("from_vec", "from_slice", "from_chunk_iter", "from_iter_options", "new_scalar", "new_empty", "full_null", "full"): return label(a[0])
        if l == "new": return label(a[0])
        if l in ("with_name", "rename") and len(a) == 2: return label(a[1])
        if l in ("drop_in_place", "column"): return label(a[1])
        if l == "from_iter": return ""
        if l in ("into_series", "into_column", "finish", "clone", "as_materialized_series", "cast", "from", "into", "sort", "reverse", "rechunk"): return self.label(a[0], d + 1)
        return None
    # ------------------------------------------------------------------ frames
    def frame(self, t, d):
        """((name, type or None), ..) of a frame, in order; None if not read"""
        if d > 60: return None
        if t.k == "pay" or (t.k == "var" and t.a[0] in ("Ok", "Some")): return self.frame(t.a[0] if t.k == "pay" else t.a[1], d + 1)
        if t.k == "mut":
            if last(t) == "drop_in_place" and len(t.a) > 4:
                s, n = self.frame(t.a[3], d + 1), label(t.a[4])
                return tuple(x for x in s if x[0] != n) if s is not None and n is not None else None
            return None
        if t.k != "call": return None
        l, a = last(t), t.a[2:]
        if l in ("collect", "lazy", "fill_null", "filter", "clone", "drop_nulls", "sort", "sort_by_exprs", "with_new_streaming", "fill_nan", "slice", "limit", "reverse", "unique"): return self.frame(a[0], d + 1)
        if l == "select": return self.exprs(a[1], self.frame(a[0], d + 1), d)
        if l in ("with_columns", "with_column"):
            s = self.frame(a[0], d + 1)
            e = self.exprs(a[1], s, d) if l == "with_columns" else (self.expr(a[1], s, d),)
            if s is None or e is None: return None
            new = dict(e)
            return tuple((n, new.get(n, x)) for n, x in s) + tuple(x for x in e if x[0] not in dict(s))
        if l == "agg":
            g = call(a[0], "group_by", "group_by_stable")
            if not g: return None
            s = self.frame(g[0], d + 1)
            k, e = self.exprs(g[1], s, d), self.exprs(a[1], s, d)
            return k + e if k is not None and e is not None else None
        if l == "new" and "DataFrame" in t.a[0]:
            x = a[0]
            if x.k == "array": return tuple((self.label(y, d + 1), self.of(y, d + 1)) for y in x.a if isinstance(y, T))
            return None
        if l == "into_frame": return ((self.label(a[0], d + 1), self.of(a[0], d + 1)),)
        if l in ("join", "left_join", "inner_join", "full_join"): return None
        return None
    def exprs(self, t, s, d):
        if t.k != "array": return None
        return tuple(self.expr(x, s, d) for x in t.a if isinstance(x, T))
    def expr(self, t, s, d):
        """(name, type or None)"""
        a = call(t, "alias")
        if a: return (label(a[1]), self.etype(a[0], s, d))
        return (self.ename(t), self.etype(t, s, d))
    def ename(self, t):
        a = call(t, "col")
        if a: return label(a[0])
        if t.k == "bin": return self.ename(t.a[1])
        if t.k == "call" and len(t.a) > 2 and isinstance(t.a[2], T):
            if call(t, "lit"): return "literal"
            if call(t, "len"): return "len" if not t.a[0].startswith("Expr::") else self.ename(t.a[2])
            return self.ename(t.a[2])
        return None
    def etype(self, t, s, d):
        a = call(t, "col")
        if a: return dict(s).get(label(a[0])) if s is not None else None
        a = call(t, "alias", "over")
        if a: return self.etype(a[0], s, d)
        a = call(t, "cast", "strict_cast")
        if a and len(a) == 2: return name_of_dtype(a[1])
        if t.k == "bin" and t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return "Boolean"
        return None

def differ(a, b):
    """a reason why two types differ for certain, or None"""
    if a is None or b is None or a == b: return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] in ("List", "Array"): return differ(a[1], b[1])
        if a[0] == "Struct":
            if a[1] is None or b[1] is None: return None
            if len(a[1]) != len(b[1]): return "%d fields (%s) against %d (%s)" % (len(a[1]), ", ".join(str(n) for n, _ in a[1]), len(b[1]), ", ".join(str(n) for n, _ in b[1]))
            for (n, x), (m, y) in zip(a[1], b[1]):
                if n is not None and m is not None and n != m: return "field %r against %r" % (n, m)
                r = differ(x, y)
                if r: return "field %r: %s" % (n or m, r)
            return None
    if isinstance(a, str) and isinstance(b, str) and set(a.split("/")) & set(b.split("/")): return None
    if isinstance(a, tuple) and a[0] == "In" or isinstance(b, tuple) and b[0] == "In": return None
    return "%s against %s" % (tstr(a), tstr(b))
def tstr(t):
    if t is None: return "?"
    if isinstance(t, str): return t
    if t[0] == "In": return "type of input %d" % t[1]
    if t[0] == "Struct": return "Struct(%s)" % ("?" if t[1] is None else ", ".join("%s: %s" % (n if isinstance(n, str) else tstr(n), tstr(x)) for n, x in t[1]))
    return "%s(%s)" % (t[0], tstr(t[1]))
