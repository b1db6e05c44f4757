"""The API of the installed polars, read from its Python source: which attributes and keyword arguments exist on
expressions, frames and series.  Used to decide whether a method call the package makes can resolve at all."""
from __future__ import annotations
import ast, glob, os
from . import pysym as S
from .pysym import Const, Sym, Op, Star

def root():
    for p in ["/opt/vp/venv/lib/python3*/site-packages/polars"] + [os.path.join(d, "lib/python3*/site-packages/polars") for d in (os.environ.get("VIRTUAL_ENV") or "/nonexistent",)]:
        g = sorted(glob.glob(p))
        if g: return g[0]
    return None

NSFILE = {"list": ("expr/list.py", "ExprListNameSpace"), "str": ("expr/string.py", "ExprStringNameSpace"), "dt": ("expr/datetime.py", "ExprDateTimeNameSpace"),
          "struct": ("expr/struct.py", "ExprStructNameSpace"), "name": ("expr/name.py", "ExprNameNameSpace"), "cat": ("expr/categorical.py", "ExprCatNameSpace"),
          "arr": ("expr/array.py", "ExprArrayNameSpace"), "bin": ("expr/binary.py", "ExprBinaryNameSpace"), "meta": ("expr/meta.py", "ExprMetaNameSpace")}
FILES = {"expr": ("expr/expr.py", "Expr"), "df": ("dataframe/frame.py", "DataFrame"), "lf": ("lazyframe/frame.py", "LazyFrame"), "series": ("series/series.py", "Series")}
RETURNS = {"Expr": "expr", "DataFrame": "df", "LazyFrame": "lf", "Series": "series"}

class Api:
    def __init__(self):
        self.root = root()
        self.cls = {}
        self.top = {}
        if self.root is None: return
        for k, (f, c) in list(FILES.items()) + [("expr." + n, v) for n, v in NSFILE.items()]:
            self.cls[k] = self._class(f, c)
        wt = ast.parse(open(os.path.join(self.root, "expr/whenthen.py")).read())
        for n in wt.body:
            if isinstance(n, ast.ClassDef):
                self.cls[n.name.lower()] = self._methods(n)
        for n in ("then", "chainedthen"):
            self.cls[n] = {**self.cls["expr"], **self.cls.get(n, {})}
        t = ast.parse(open(os.path.join(self.root, "__init__.py")).read())
        for n in ast.walk(t):
            if isinstance(n, (ast.ImportFrom, ast.Import)):
                for a in n.names: self.top[a.asname or a.name] = True
    def _methods(self, cd):
        out = {}
        for x in cd.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                prop = any(isinstance(d, ast.Name) and d.id == "property" or isinstance(d, ast.Attribute) and d.attr in ("setter",) for d in x.decorator_list)
                overload = any(isinstance(d, ast.Name) and d.id == "overload" for d in x.decorator_list)
                if overload and x.name in out: continue
                renamed = set()
                loose = False
                for d in x.decorator_list:
                    if isinstance(d, ast.Call):
                        nm = d.func.id if isinstance(d.func, ast.Name) else getattr(d.func, "attr", "")
                        if nm == "deprecate_renamed_parameter" and d.args and isinstance(d.args[0], ast.Constant): renamed.add(d.args[0].value)
                        elif nm.startswith("deprecate_") and nm not in ("deprecate_renamed_parameter", "deprecate_function", "deprecate_streaming_parameter", "deprecate_nonkeyword_arguments"): loose = True
                a = x.args
                names = [y.arg for y in a.posonlyargs + a.args][1:]
                out[x.name] = dict(prop=prop, pos=names, kw={y.arg for y in a.kwonlyargs} | set(names) | renamed | ({"streaming"} if x.name == "collect" else set()), var=a.vararg is not None, kwvar=a.kwarg is not None or loose,
                                   ret=ast.unparse(x.returns).strip("'\"") if x.returns else "", maxpos=len(names))
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name): out[t.id] = None
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name): out[x.target.id] = None
        return out
    def _class(self, f, c):
        t = ast.parse(open(os.path.join(self.root, f)).read())
        for n in t.body:
            if isinstance(n, ast.ClassDef) and n.name == c: return self._methods(n)
        return {}

    def kind(self, t, typ=None, memo=None):
        """'expr' | 'expr.list' | ... | 'df' | 'lf' | 'series' | None (not known)"""
        if isinstance(t, Sym):
            ty = (typ or {}).get(t)
            if ty and len(ty) == 1: return {"pl.Expr": "expr", "pl.Series": "series", "pl.DataFrame": "df", "pl.LazyFrame": "lf"}.get(next(iter(ty)))
            return None
        if not isinstance(t, Op): return None
        if memo is not None and id(t) in memo: return memo[id(t)][1]
        r = self._kind(t, typ, memo)
        if memo is not None: memo[id(t)] = (t, r)
        return r
    def _kind(self, t, typ, memo):
        if t.op in ("bin", "un", "cmp"):
            ks = {self.kind(x, typ, memo) for x in t.args if isinstance(x, S.Term)}
            if t.op == "cmp" and t.args[0] in ("is", "is not", "in", "not in"): return None
            return "expr" if ks & {"expr", "then", "chainedthen"} else None
        if t.op == "attr":
            b = self.kind(t.args[0], typ, memo)
            if b in ("expr", "then", "chainedthen") and t.args[1] in NSFILE: return "expr." + t.args[1]
            return None
        if t.op != "call": return None
        f = t.args[0]
        if isinstance(f, Op) and f.op == "pkg":
            return "expr" if f.args[0].split(".")[-1] in ("str_to_expr",) else None
        if isinstance(f, Op) and f.op == "ext":
            n = f.args[0]
            if n in ("polars.when",): return "when"
            if n in ("polars.DataFrame", "polars.from_dict", "polars.from_dicts", "polars.from_numpy", "polars.from_pandas", "polars.read_csv", "polars.read_parquet"): return "df"
            if n in ("polars.LazyFrame", "polars.scan_parquet", "polars.scan_csv"): return "lf"
            if n in ("polars.Series",): return "series"
            if n.endswith("register_plugin_function"): return "expr"
            if n in ("polars.int_range", "polars.arange", "polars.int_ranges", "polars.concat", "polars.zeros", "polars.ones", "polars.repeat", "polars.date_range", "polars.collect_all", "polars.select", "polars.align_frames", "polars.datetime_range", "polars.linear_space"): return None
            if n.startswith("polars.") and n.count(".") == 1 and n.split(".")[1].islower(): 
                if n.split(".")[1] in ("col", "lit", "len", "all", "exclude", "struct", "concat_list", "concat_str", "coalesce", "sum_horizontal", "max_horizontal", "min_horizontal", "mean_horizontal", "all_horizontal", "any_horizontal", "element", "corr", "cov", "count", "nth", "first", "last", "sum", "mean", "max", "min", "format"): return "expr"
            return None
        if isinstance(f, Op) and f.op == "attr":
            b = self.kind(f.args[0], typ, memo)
            if b is None: return None
            m = f.args[1]
            if b == "when": return "then" if m == "then" else None
            if b in ("then", "chainedthen") and m == "when": return "chainedwhen"
            if b == "chainedwhen": return "chainedthen" if m == "then" else None
            if b in ("then", "chainedthen"): b = "expr"
            if b == "expr.meta": return None
            d = self.cls.get(b, {}).get(m)
            if not d: return None
            r = d["ret"]
            if r == "Self": return b
            return RETURNS.get(r)
        return None
    def problem(self, t, typ=None, memo=None):
        """None, or why the attribute or call cannot resolve"""
        if t.op == "call" and isinstance(t.args[0], Op) and t.args[0].op == "ext":
            n = t.args[0].args[0]
            if n.startswith("polars.") and n.count(".") == 1 and n.split(".")[1] not in self.top and not n.split(".")[1].startswith("_"): return "polars has no '%s'" % n.split(".")[1]
            return None
        if t.op == "attr":
            b = self.kind(t.args[0], typ, memo)
            c = self.cls.get(b)
            if b is None or not c: return None
            if t.args[1] not in c and not t.args[1].startswith("__"): return "a polars %s has no attribute '%s'" % (b, t.args[1])
            return None
        if t.op == "call" and isinstance(t.args[0], Op) and t.args[0].op == "attr":
            b = self.kind(t.args[0].args[0], typ, memo)
            c = self.cls.get(b)
            if b is None or not c: return None
            d = c.get(t.args[0].args[1])
            if not d or d["prop"]: return None
            if not d["kwvar"]:
                for k, _ in t.args[2]:
                    if k not in d["kw"] and isinstance(k, str) and not k.startswith("*"): return "%s.%s takes no argument '%s'" % (b, t.args[0].args[1], k)
            n = len(t.args[1])
            if not d["var"] and n > d["maxpos"] and not any(isinstance(x, (Star,)) or isinstance(x, Op) and x.op == "starred" for x in t.args[1]): return "%s.%s takes at most %d positional arguments, %d given" % (b, t.args[0].args[1], d["maxpos"], n)
        return None
