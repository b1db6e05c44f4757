"""Row-by-row results: which input rows a result row is computed from, and by which function."""
from __future__ import annotations
from .msym import T, mk, walk, kids, show, NONE
from .nf import TooBig
from .rowlen import RowLen, call, last, ROWMAP, ROWMAP2, VIEW, TYPED

# what looks at more than one row
MIX = {"sort", "sort_with", "sort_by", "sort_unstable", "sort_unstable_by", "shift", "diff", "filter", "unique", "reverse", "rev", "rolling", "cum_sum", "cum_prod", "cum_max", "cum_min", "arg_sort", "rank", "mean", "sum", "std", "var", "min", "max", "median",
       "skip", "windows", "chunks", "chunks_exact", "tuple_windows", "cont_slice", "to_ndarray", "data_views", "select", "group_by", "agg", "with_columns", "lazy", "over", "n_unique", "value_counts", "series_to_row_major_slice", "series_to_slice", "step_by", "scan", "dedup", "gather", "take_unchecked",
       "skip_while", "take_while", "first", "nth", "mode", "sample_n", "head", "tail", "slice", "limit", "drop_nulls", "get", "argsort", "arg_min", "arg_max", "null_count", "fold", "reduce", "into_no_null_iter", "quantile", "cycle", "last", "contains_all"}
RNG = ("Rng::", "Distribution::", "DistString::", "SeedableRng::", "RngCore::")

class Row:
    def __init__(self, kind, leaves, body, depth, cols):
        self.kind, self.leaves, self.body, self.depth, self.cols = kind, leaves, body, depth, cols
        self.blind = set() # columns whose rows are visited without a look at which are null

class Rowwise:
    def __init__(self, q): self.q, self.R, self.blind = q, RowLen(q), set()
    def leaves(self, src, at, out):
        """{term of one element: input column} of a row source; False if it is not one row per input row"""
        c = self.R.col(src)
        if c is not None: out[at] = c; return True
        a = call(src, "into_no_null_iter")
        if a and self.R.col(a[0]) is not None: self.blind.add(self.R.col(a[0])); out[at] = self.R.col(a[0]); return True
        a = call(src, "iter", "copied", "cloned", "values_iter", "into_iter", "iter_values")
        if a and src.a[0].startswith(("it::", "ChunkedArray", "Series")): return self.leaves(a[0], at, out)
        if src.k == "call" and src.a[0] == "it::zip": return self.leaves(src.a[2], mk("fld", at, 0), out) and self.leaves(src.a[3], mk("fld", at, 1), out)
        return False
    def decode(self, v):
        """Row of a returned column, or None"""
        R, q = self.R, self.q
        c = R.col(v)
        if c is not None: return Row("val", {mk("bv", 0, 0): c}, mk("bv", 0, 0), 0, [c])
        if v.k == "chunks": return self.decode(v.a[0])
        for _ in range(3):
            a = call(v, "rename", "with_name", "into_series", "from", "into", "clone")
            if a: v = a[0]
        a = call(v, "collect")
        if v.k == "rows" or v.k == "list": src, f = v.a[0], v.a[1]
        elif a and call(a[0], "map") and a[0].a[0] == "it::map": src, f = a[0].a[2], a[0].a[3]
        elif v.k == "call" and last(v) in ROWMAP and R.col(v.a[2]) is not None: return self.fn("val" if last(v) not in ("apply", "apply_generic", "unary_elementwise", "try_unary_elementwise") else "opt", [R.col(v.a[2])], v.a[3])
        elif v.k == "call" and last(v) in ROWMAP2 and R.col(v.a[2]) is not None and R.col(v.a[3]) is not None: return self.fn("opt", [R.col(v.a[2]), R.col(v.a[3])], v.a[4])
        elif v.k == "call" and last(v) == "from_vec" and call(v.a[3], "from_elem"):
            b = call(v.a[3], "from_elem")
            n = b[1]
            l = call(n, "len")
            if l and R.col(l[0]) is not None: return Row("const", {}, b[0], 0, [R.col(l[0])])
            return None
        else: return None
        if f.k != "lam": return None
        d = f.a[2]
        lv = {}
        self.blind = set()
        if not self.leaves(src, mk("bv", d, 0), lv): return None
        r = Row("opt", lv, f.a[1], d, sorted(set(lv.values())))
        r.blind = self.blind
        return r
    def fn(self, kind, cols, f):
        if f.k == "fnref": return Row(kind, {mk("bv", 0, i): c for i, c in enumerate(cols)}, mk("call", f.a[0], "", *[mk("bv", 0, i) for i in range(len(cols))]), 0, sorted(set(cols)))
        if f.k != "lam": return None
        return Row(kind, {mk("bv", f.a[2], i): c for i, c in enumerate(cols)}, f.a[1], f.a[2], sorted(set(cols)))
    # ------------------------------------------------------------------ what a row function may look at
    def single(self, t):
        """column k when the term reads the first value of column k"""
        if t.k == "pay" and t.a[0].k == "call" and last(t.a[0]) in ("get", "first") : t = t.a[0]
        if t.k != "call" or last(t) not in ("get", "first", "get_unchecked", "get_as_series"): return None
        if last(t) != "first" and (len(t.a) < 4 or t.a[3] is not mk("int", 0)): return None
        return self.R.col(t.a[2])
    def foreign(self, row):
        """mentions of input columns in the row function: [('single', k) | ('mix', k, term) | ('other', k, term)]"""
        out, q = [], self.q
        seen = set()
        def go(t, top):
            if t in row.leaves or t in seen: return
            seen.add(t)
            k = self.single(t)
            if k is not None: out.append(("single", k, t)); return
            k = self.R.col(t)
            if k is not None:
                l = top and (last(top) if top.k == "call" else top.k)
                if l in ("len", "null_count"): out.append(("mix", k, top)); return
                out.append(("mix" if l in MIX or l in ("sum", "rec", "rows", "list", "idx") else "other", k, top or t)); return
            if t.k == "arg" and t.a[-1] == 1: out.append(("other", -1, top or t)); return
            nt = t if t.k in ("call", "sum", "rec", "rows", "list", "idx", "len") and not (t.k == "call" and t.a[0] in ("it::iter", "it::zip", "it::map")) else top
            for x in kids(t): go(x, nt)
        go(row.body, None)
        return out
    def state(self, row):
        """effects of the row function on captured state other than drawing random numbers"""
        return [x for x in walk(row.body) if x.k == "post" and not (isinstance(x.a[1], T) and x.a[1].k in ("mut", "call") and x.a[1].a[0].startswith(RNG))]
    def mixes(self, v):
        """a head that looks at several rows of an input column, in a value that is not a row-by-row result"""
        bad = None
        for x in walk(v):
            if x.k in ("call", "sum", "rec", "idx") and (x.k != "call" or last(x) in MIX):
                if self.single(x) is not None: continue
                if x.k == "idx" and x.a[0].k == "arg": continue
                ys = kids(x)
                if any(self.R.col(z) is not None for y in ys for z in walk(y)):
                    bad = bad if bad is not None and bad.k == "call" else x
                    if x.k == "call": return x
        return bad
    # ------------------------------------------------------------------ nulls
    def arms(self, row):
        return self.q.items(row.body)
