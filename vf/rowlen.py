"""Row structure of the values a native routine returns: how many rows, from which input rows, computed how."""
from __future__ import annotations
from .msym import T, mk, walk, kids, show
from .nf import Poly, TooBig, _padd
from .plugs import num

ONE = Poly({(): 1})
def call(t, *names):
    return t.a[2:] if isinstance(t, T) and t.k == "call" and (t.a[0] in names or t.a[0].split("::")[-1] in names) else None
def last(t): return t.a[0].split("::")[-1] if t.k == "call" else ""

TYPED = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "str", "list", "array", "struct_", "binary", "categorical", "date", "datetime", "duration"}
VIEW = {"cast", "cast_with_options", "strict_cast", "clone", "rename", "with_name", "rechunk", "as_materialized_series", "into_series", "into_column", "to_physical_repr", "to_float", "take_materialized_series", "cow_clone", "into_owned", "fill_nan", "as_series", "to_owned", "into"}
ROWMAP = {"apply_values", "apply_into_string_amortized", "apply", "apply_amortized", "apply_nonnull_values_generic", "try_apply", "apply_to_inner", "apply_mut", "unary_elementwise", "unary_elementwise_values", "try_unary_elementwise", "apply_generic"}
ROWMAP2 = {"binary_elementwise", "binary_elementwise_values", "try_binary_elementwise", "broadcast_binary_elementwise", "broadcast_binary_elementwise_values"}
BUILD = {"from_vec", "from_slice", "from_iter", "from_iter_values", "new", "from_vec_validity", "from_iter_options", "from_values_iter", "from_trusted_len_iter"}
LENS = {"len"}
DROP = {"filter", "filter_map", "take_while", "skip_while", "flat_map", "flatten", "step_by", "dedup", "unique", "map_while", "filter_ok", "flatten_ok", "intersperse", "scan", "cycle"}

class RowLen:
    def __init__(self, q): self.q = q
    # -------------------------------------------------------------- input columns
    def col(self, t):
        """index of the input column `t` shows row by row, None when it is not such a view"""
        while True:
            if t.k == "idx" and t.a[0].k == "arg" and t.a[0].a[-1] == 1 and t.a[1].k == "int": return t.a[1].a[0]
            if t.k == "pay": t = t.a[0]; continue
            if t.k == "call" and len(t.a) >= 3 and (last(t) in TYPED or last(t) in VIEW): t = t.a[2]; continue
            return None
    def num(self, t): return num(self.q, t)
    # -------------------------------------------------------------- number of rows
    def length(self, t):
        """number of rows / elements of a term as a polynomial, None when it cannot be read"""
        c = self.col(t)
        if c is not None: return self.lencol(c)
        k = t.k
        if k in ("pay",): return self.length(t.a[0])
        if k == "var" and t.a[0].split("::")[-1] in ("Ok", "Some", "Series", "Column"): return self.length(t.a[-1])
        if k in ("rows", "list"): return self.length(t.a[0])
        if k == "chunks": return self.length(t.a[0])
        if k == "array": return Poly({(): len(t.a)}) if t.a else Poly()
        if k == "struct" and t.a[0] == "Range": return _padd(self.num(t.a[2]), self.num(t.a[1]), -1) if self.num(t.a[2]) is not None and self.num(t.a[1]) is not None else None
        if k == "struct" and t.a[0] == "RangeInclusive":
            a, b = self.num(t.a[1]), self.num(t.a[2])
            return _padd(_padd(b, a, -1), ONE) if a is not None and b is not None else None
        if k == "case":
            ls = [self.length(a.a[1]) for a in t.a[1] if a.a[1].k not in ("panic", "never")]
            if ls and None not in ls and all(x == ls[0] for x in ls): return ls[0]
            return None
        mut = k == "mut"
        if mut: l, a = t.a[0].split("::")[-1], (t.a[3],)
        elif k == "call": l, a = last(t), t.a[2:]
        else: return None
        if t.a[0].startswith("it::"):
            if l in ("map", "iter", "enumerate", "rev", "collect", "collect_vec", "sorted", "copied", "cloned", "sorted_by", "sorted_unstable_by", "inspect", "peekable"): return self.length(a[0])
            if l == "zip":
                x, y = self.length(a[0]), self.length(a[1])
                return x if x is not None and x == y else None
            if l == "take":
                return None if self.num(a[1]) is None else self.take(a[0], self.num(a[1]))
            if l == "chain":
                x, y = self.length(a[0]), self.length(a[1])
                return _padd(x, y) if x is not None and y is not None else None
            if l == "once": return ONE
            if l == "windows":
                n, w = self.num(mk("len", a[0])), self.num(a[1])
                return _padd(_padd(n, w, -1), ONE) if n is not None and w is not None else None
            return None
        if l in ("finish", "into_series", "sort", "sort_unstable", "reverse", "map_inplace", "sort_by", "sort_unstable_by", "sort_unstable_by_key", "to_vec", "rev", "shuffle"): return self.length(a[0])
        if mut and l in ("append_value", "append_null", "append_option", "append_slice", "append_series", "append_opt_series", "push", "append_opt_slice", "push_null", "append_empty", "append_values_iter"):
            x = self.length(a[0]); return _padd(x, ONE) if x is not None else None
        if "Builder" in t.a[0] and l == "new": return Poly()
        if (l in VIEW or l in TYPED or l == "from") and len(a) >= 1 and not mut: return self.length(a[0])
        if l in ROWMAP: return self.length(a[0])
        if l in ROWMAP2:
            x, y = self.length(a[0]), self.length(a[1])
            return x if x is not None and x == y else None
        if l in ("into_struct", "drop_in_place", "column", "select_at_idx"): return self.frame(a[0])
        if l == "from_series" and len(a) >= 3: return self.num(a[1])
        if l == "from_columns" and len(a) >= 3: return self.num(a[1])
        if l == "from_elem": return self.num(a[1])
        if l == "new_scalar" and len(a) == 3: return self.num(a[2])
        if l == "full" and len(a) == 3: return self.num(a[2])
        if l == "full_null" and len(a) >= 2: return self.num(a[1])
        if l in BUILD: return self.length(a[-1])
        return None
    # -------------------------------------------------------------- frames
    def frame(self, t):
        """number of rows of a DataFrame / LazyFrame term"""
        if t.k in ("pay",) or (t.k == "var" and t.a[0] == "Ok"): return self.frame(t.a[-1])
        if t.k != "call": return None
        l, a = last(t), t.a[2:]
        if l in ("lazy", "collect", "with_columns", "with_column", "fill_null", "sort", "rename", "fill_nan", "reverse", "with_row_index", "cast", "clone", "drop", "collect_with_engine"): return self.frame(a[0])
        if l in ("new", "new_no_checks") and t.a[0].startswith("DataFrame::"):
            if a[-1].k == "list" and a[-1].a[1].k == "lam": return self.length(a[-1].a[1].a[1])
            if a[-1].k != "array" or not a[-1].a: return None
            ls = [self.length(x.a[2] if call(x, "from", "into") else x) for x in a[-1].a]
            ls = [x for x in ls if x is not None]
            return ls[0] if ls and all(x == ls[0] for x in ls) else None
        if l == "select":
            if a[1].k != "array": return None
            if all(self.scalar(e) for e in a[1].a): return ONE
            n = self.frame(a[0])
            return n if n is not None and all(self.aligned(e) for e in a[1].a) else None
        if l == "limit" and a[1].k == "int" and a[1].a[0] == 1: return ONE
        return None
    AGG = {"sum", "mean", "min", "max", "std", "var", "first", "last", "dot", "count", "n_unique", "median", "quantile", "any", "all", "product", "null_count", "arg_max", "arg_min", "len", "lit", "pearson_corr", "spearman_rank_corr", "cov", "skew", "kurtosis"}
    UN = {"alias", "cast", "sqrt", "abs", "log", "exp", "log1p", "neg", "fill_null", "fill_nan", "is_null", "is_not_null", "is_nan", "is_finite", "pow", "clip", "floor", "ceil", "round", "strict_cast", "eq", "neq", "gt", "lt", "gt_eq", "lt_eq", "and", "or", "not", "when", "then", "otherwise", "floor_div", "to_physical"}
    def scalar(self, e):
        if e.k == "sum": return True
        if e.k in ("str", "int", "float", "bool", "const", "struct", "unit", "arg") or e.k == "var": return True
        if e.k == "poly": return all(self.scalar(a) for m in (num(self.q, e) or {}) for a, _ in m)
        if e.k in ("bin",): return self.scalar(e.a[1]) and self.scalar(e.a[2])
        if e.k != "call": return False
        l = last(e)
        if l in self.AGG: return True
        if l in self.UN: return all(self.scalar(x) for x in e.a[2:])
        return len(e.a) == 2          # a constructor without arguments (a data type, an option)
    def aligned(self, e):
        if self.scalar(e) : return True
        if e.k == "poly": return all(self.aligned(a) for m in (num(self.q, e) or {}) for a, _ in m)
        if e.k == "bin": return self.aligned(e.a[1]) and self.aligned(e.a[2])
        if e.k != "call": return False
        l = last(e)
        if l == "col": return True
        if l in self.UN or l in ("over", "shift", "diff", "cum_sum", "rank", "reverse", "sort"): return all(self.aligned(x) for x in e.a[2:3]) and (l in ("over", "shift", "diff", "cum_sum", "rank", "reverse", "sort") or all(self.aligned(x) for x in e.a[3:]))
        return False
    def certain(self, n):
        """the count is a constant or counts the rows of the inputs"""
        return all(a.k == "rows_of" or (a.k == "call" and last(a) == "len" and self.col(a.a[2]) is not None) or (a.k == "len" and self.col(a.a[0]) is not None) for m in n for a, _ in m)
    def struct_cols(self, x):
        """(declared number of rows, columns) of a struct construction"""
        if x.k != "call" or last(x) not in ("from_series", "from_columns") or len(x.a) < 5: return None
        cs = x.a[4]
        cs = call(cs, "iter")[0] if call(cs, "iter") else cs
        return (self.num(x.a[3]), list(cs.a)) if cs.k == "array" else None
    def lencol(self, c): return Poly({((mk("rows_of", c), 1),): 1})
    def take(self, src, n):
        if call(src, "sample_iter") or call(src, "repeat", "repeat_with", "cycle"): return n
        x = self.length(src)
        return x if x is not None and x == n else None
