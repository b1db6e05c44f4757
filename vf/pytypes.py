"""What the Python layer fixes about the type of a value: polars dtypes of expressions handed to native routines, and the kind
of a plain option value."""
from __future__ import annotations
import ast, re
from . import pysym as S

PRESERVE = {"alias", "rechunk", "filter", "fill_null", "fill_nan", "drop_nulls", "drop_nans", "reverse", "sort", "slice", "shift", "head", "tail",
            "unique", "gather", "clip", "first", "last", "max", "min", "sort_by", "limit", "over", "set_sorted", "shuffle", "sample", "abs", "forward_fill",
            "backward_fill", "to_physical", "cum_sum", "cum_max", "cum_min", "diff", "sum", "mode", "get", "name"}
BOOL = {"is_null", "is_not_null", "is_finite", "is_infinite", "is_nan", "is_not_nan", "is_in", "is_between", "eq", "ne", "gt", "ge", "lt", "le", "any", "all", "not_",
        "is_duplicated", "is_unique", "is_first_distinct", "is_last_distinct", "eq_missing", "ne_missing", "starts_with", "ends_with", "contains"}
U32 = {"count", "len", "n_unique", "arg_max", "arg_min", "arg_sort", "null_count"}
FLOAT = {"mean", "std", "var", "median", "skew", "kurtosis", "rolling_mean", "rolling_var", "rolling_std", "quantile", "rank"}
COERCE = ("str_to_expr", "lr_formula")

def ext_name(t): return t.args[0] if isinstance(t, S.Op) and t.op == "ext" else None

def dtype_name(t):
    n = ext_name(t)
    if n and n.startswith("polars."): return n.split(".")[-1]
    if n in ("int", "float", "bool", "str"): return {"int": "Int64", "float": "Float64", "bool": "Boolean", "str": "String"}[n]
    return None

def call_parts(t):
    """(fn term, args, kwargs dict) of a call term"""
    if isinstance(t, S.Op) and t.op == "call": return t.args[0], t.args[1], dict(t.args[2])
    return None

USER = "user"
def dtype_of(t):
    """dtype name | USER (the caller's column or expression, unconverted) | None (not known)"""
    if isinstance(t, S.Star): return dtype_of(t.t)
    if isinstance(t, S.Sym): return USER
    if isinstance(t, S.Const):
        if isinstance(t.v, bool): return "Boolean"
        if isinstance(t.v, int): return "Int32"
        if isinstance(t.v, float): return "Float64"
        if isinstance(t.v, str): return USER
        return None
    if t.op == "cmp": return "Boolean"
    if t.op == "un": return dtype_of(t.args[1]) if t.args[0] in ("~", "-", "+") else None
    if t.op in ("elem",): return USER
    c = call_parts(t)
    if c is None: return None
    f, a, k = c
    if isinstance(f, S.Op) and f.op == "pkg":
        if f.args[0].split(".")[-1] in COERCE and a:
            x = a[0]
            if isinstance(x, S.Op) and x.op == "call": return dtype_of(x)
            return USER if isinstance(x, (S.Sym, S.Const)) or (isinstance(x, S.Op) and x.op in ("elem", "index", "attr", "sub")) else None
        return None
    n = ext_name(f)
    if n:
        l = n.split(".")[-1]
        if n in ("polars.lit", "polars.Series", "polars.repeat"):
            dt = k.get("dtype")
            if dt is None and n == "polars.lit" and len(a) > 1: dt = a[1]
            if dt is None and n == "polars.Series" and len(a) > 2: dt = a[2]
            if dt is not None: return dtype_name(dt)
            if n == "polars.lit" and a:
                x = a[0]
                if isinstance(x, S.Const): return dtype_of(x) if not isinstance(x.v, str) else "String"
                if isinstance(x, S.Op) and x.op == "call": return dtype_of(x)
                return USER
            return USER
        if n in ("polars.all_horizontal", "polars.any_horizontal"): return "Boolean"
        if n == "polars.len" or n == "polars.count": return "UInt32"
        if n in ("polars.col", "polars.element", "polars.sql_expr"): return USER
        if n in ("polars.max_horizontal", "polars.min_horizontal"): return None
        return None
    if isinstance(f, S.Op) and f.op == "attr":
        m = f.args[1]
        if m == "cast" and a: return dtype_name(a[0])
        if m == "cast" and "dtype" in k: return dtype_name(k["dtype"])
        if m in BOOL: return "Boolean"
        if m in U32: return "UInt32"
        if m in PRESERVE: return dtype_of(f.args[0])
    return None

def strip_lit(t):
    """the Python value inside pl.lit(..)/cast wrappers"""
    while True:
        c = call_parts(t)
        if c is None: return t
        f, a, k = c
        n = ext_name(f)
        if n == "polars.lit" and a: t = a[0]; continue
        if isinstance(f, S.Op) and f.op == "attr" and f.args[1] in ("cast", "alias", "rechunk"): t = f.args[0]; continue
        if isinstance(f, S.Op) and f.op == "pkg" and f.args[0].split(".")[-1] in COERCE and a: t = a[0]; continue
        return t

# ------------------------------------------------------------------ kinds of option values

def annotation(clo, name):
    a = clo.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == name: return x.annotation
    return None

def ann_kinds(ann, mod, pkg, depth=0):
    """{'int','float','bool','str','none','expr','list',...} an annotation admits; None when not understood"""
    if ann is None or depth > 6: return None
    if isinstance(ann, ast.Constant):
        if ann.value is None: return {"none"}
        if isinstance(ann.value, str):
            try: return ann_kinds(ast.parse(ann.value, mode="eval").body, mod, pkg, depth + 1)
            except SyntaxError: return None
        return None
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        l, r = ann_kinds(ann.left, mod, pkg, depth + 1), ann_kinds(ann.right, mod, pkg, depth + 1)
        return None if l is None or r is None else l | r
    if isinstance(ann, ast.Name):
        if ann.id in ("int", "float", "bool", "str", "list", "dict"): return {ann.id}
        v = alias_of(mod, pkg, ann.id)
        if v is not None: return ann_kinds(v[0], v[1], pkg, depth + 1)
        return {"other"}
    if isinstance(ann, ast.Attribute): return {"expr"}
    if isinstance(ann, ast.Subscript):
        h = ann.value.id if isinstance(ann.value, ast.Name) else getattr(ann.value, "attr", "")
        if h == "Literal":
            vals = literal_values(ann)
            out = set()
            for v in vals: out.add("none" if v is None else type(v).__name__)
            return out
        if h in ("Union",):
            es = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            out = set()
            for e in es:
                k = ann_kinds(e, mod, pkg, depth + 1)
                if k is None: return None
                out |= k
            return out
        if h == "Optional":
            k = ann_kinds(ann.slice, mod, pkg, depth + 1)
            return None if k is None else k | {"none"}
        return {"list"} if h in ("List", "list", "Sequence", "Iterable") else {"other"}
    return None

def literal_values(ann):
    es = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
    out = []
    for e in es:
        if isinstance(e, ast.Constant): out.append(e.value)
        elif isinstance(e, ast.Subscript): out += literal_values(e)
    return out

def alias_of(mod, pkg, name, seen=()):
    """(ast of the alias value, module) for a module level type alias"""
    if (mod.name, name) in seen: return None
    for st in mod.tree.body if hasattr(mod, "tree") else []:
        tgt = None
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name): tgt = st.targets[0].id
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name): tgt = st.target.id
        if tgt == name and st.value is not None: return st.value, mod
        if isinstance(st, ast.ImportFrom):
            for al in st.names:
                if (al.asname or al.name) == name:
                    m = resolve_import(mod, pkg, st)
                    if m is not None: return alias_of(m, pkg, al.name, seen + ((mod.name, name),))
    return None

def resolve_import(mod, pkg, st):
    base = mod.resolve_rel(st) if hasattr(mod, "resolve_rel") else st.module
    if isinstance(base, str): return pkg.mods.get(base)
    return None

def param_literals(clo, pkg, name):
    """the documented values of an enumerated option, or None"""
    def go(ann, mod, d=0):
        if ann is None or d > 6: return None
        if isinstance(ann, ast.Subscript):
            h = ann.value.id if isinstance(ann.value, ast.Name) else getattr(ann.value, "attr", "")
            if h == "Literal": return literal_values(ann)
            return None
        if isinstance(ann, ast.BinOp):
            l, r = go(ann.left, mod, d + 1), go(ann.right, mod, d + 1)
            return (l or []) + (r or []) if (l or r) else None
        if isinstance(ann, ast.Name):
            v = alias_of(mod, pkg, ann.id)
            return go(v[0], v[1], d + 1) if v else None
        return None
    return go(annotation(clo, name), clo.mod)

def value_kind(t, path, clo, pkg):
    """kinds an option value may have on this path: a set, or None"""
    if isinstance(t, S.Const):
        return {"none"} if t.v is None else {type(t.v).__name__}
    if isinstance(t, S.Op):
        if t.op in ("cmp", "not", "isinstance", "any", "all"): return {"bool"}
        if t.op == "fstr": return {"str"}
        c = call_parts(t)
        if c:
            n = ext_name(c[0])
            if n in ("float", "int", "bool", "str", "len"): return {"int" if n == "len" else n}
            if n in ("abs", "max", "min") and c[1]: 
                out = set()
                for x in c[1]:
                    k = value_kind(x, path, clo, pkg)
                    if k is None: return None
                    out |= k
                return out
        if t.op == "bin" and t.args[0] == "/": return {"float"}
        if t.op in ("dict",): return {"dict"}
        if t.op in ("list", "tuple"): return {"list"}
        return None
    if isinstance(t, S.Sym):
        ks = ann_kinds(annotation(clo, t.name), clo.mod, pkg)
        if ks is None: return None
        ks = set(ks)
        for cnd, val in path.conds:
            if isinstance(cnd, S.Op) and cnd.op == "cmp" and cnd.args[1] == t and cnd.args[2] == S.Const(None):
                if cnd.args[0] in ("is", "==") and not val: ks.discard("none")
                if cnd.args[0] in ("is", "==") and val: ks &= {"none"}
            if isinstance(cnd, S.Op) and cnd.op == "isinstance" and cnd.args[0] == t:
                pass
            if cnd == t and val: ks.discard("none")
        if path.typ and t in path.typ:
            x = path.typ[t] & {"str", "int", "float", "bool", "list", "none"}
            if x: ks = (ks & x) or x
        return ks
    return None
