"""C45: columns that belong together row by row are not taken from separate evaluations of something that has no fixed row order."""
from .. import builders as B, pysym as S, pytypes as T
RULE = ("the order of rows is followed through every expression the Python layer builds: value_counts (unsorted), unique, mode, and unseeded shuffle, sample and random ranks leave it open until a sort or an aggregation fixes it; "
        "no two operands that correspond row by row (the columns handed to one native routine, the sides of an operator, the columns of one select, struct or sort_by) may both carry the open order of the same lazy expression, "
        "because the engine evaluates each of them anew")
TECHNIQUE = "row-order effect analysis over the symbolic expression terms of every function of the Python layer"
TRUST = ["Polars documents no row order for value_counts(), unique() and mode() unless asked for one, and evaluates an expression that occurs twice twice"]

FIX = {"sum", "mean", "min", "max", "len", "count", "n_unique", "entropy", "var", "std", "median", "quantile", "any", "all", "product", "null_count", "skew", "kurtosis", "nan_max", "nan_min", "sort", "arg_unique",
       "is_duplicated", "approx_n_unique", "bitwise_and", "bitwise_or"}
SCALAR_OF_ORDER = {"first", "last", "get", "item", "arg_max", "arg_min", "arg_sort"}
LOOKUP = {"is_in", "replace", "replace_strict", "contains", "contains_any", "fill_null"}
NAMES = {"alias", "name", "map_alias", "exclude", "rename_fields", "field"}
PLAIN = {"lit", "Series", "DataFrame", "col", "len", "Config"}

def true(x): return isinstance(x, S.Const) and x.v is True
def absent(x): return x is None or (isinstance(x, S.Const) and x.v is None)

class Order:
    def __init__(self): self.memo, self.bad, self.sources, self.places, self.eager_memo = {}, [], set(), set(), {}
    def eager(self, t):
        """a value computed once, when the builder runs (a Series or DataFrame), not an expression"""
        while True:
            if isinstance(t, S.Op) and t.op == "sub": return True
            c = T.call_parts(t)
            if c is None: return False
            n = T.ext_name(c[0])
            if n in ("polars.Series", "polars.DataFrame", "polars.from_numpy", "polars.from_dicts"): return True
            f = c[0]
            if not (isinstance(f, S.Op) and f.op == "attr"): return False
            if f.args[1] in ("collect", "get_column", "to_series", "drop_in_place", "get_columns"): return True
            t = f.args[0]
    def together(self, t, parts, what):
        """union of the open orders of operands that correspond row by row"""
        if len(parts) > 1: self.places.add((what, t))
        seen = {}
        out = set()
        for i, p in enumerate(parts):
            o = self.of(p)
            for s in o:
                if s in seen: self.bad.append((what, t, s))
                seen[s] = i
            out |= o
        return frozenset(out)
    def of(self, t):
        if isinstance(t, S.Star): return self.of(t.t)
        if not isinstance(t, S.Op): return frozenset()
        k = t
        if k in self.memo: return self.memo[k]
        self.memo[k] = frozenset()
        r = self.memo[k] = self._of(t)
        return r
    def flat(self, xs):
        out = []
        for x in xs:
            if isinstance(x, S.Op) and x.op in ("list", "tuple", "set"): out += self.flat(x.args)
            elif isinstance(x, S.Op) and x.op == "dict": out += self.flat([v for _, v in x.args])
            elif isinstance(x, S.Term): out.append(x)
        return out
    def _of(self, t):
        c = T.call_parts(t)
        if c is None:
            sub = [x for x in t.args if isinstance(x, S.Term)]
            if t.op in ("bin", "cmp", "and", "or"): return self.together(t, sub, "operator")
            if t.op in ("list", "tuple", "dict", "set"):
                out = frozenset()
                for x in self.flat([t]): out |= self.of(x)
                return out
            if t.op == "attr": return self.of(t.args[0])
            if t.op == "sub": return frozenset()          # indexing works on values already computed (a DataFrame, a Series), not on expressions
            out = frozenset()
            for x in sub: out |= self.of(x)
            return out
        f, a, kw = c
        n = T.ext_name(f)
        if n:
            last = n.split(".")[-1]
            if last == "register_plugin_function":
                return self.together(t, self.flat([kw["args"]]) if "args" in kw else [], "arguments of one native routine")
            if n.startswith("polars."):
                if last in ("lit", "Series", "DataFrame"): return frozenset()
                if last in ("struct", "concat_list", "concat_str", "corr", "cov", "arg_sort_by", "rolling_corr", "map_batches", "concat_arr", "coalesce", "sum_horizontal", "max_horizontal", "min_horizontal", "any_horizontal", "all_horizontal", "rolling_cov"):
                    return self.together(t, self.flat(list(a) + [v for _, v in kw.items()]), "operands of pl." + last)
            out = frozenset()
            for x in self.flat(list(a) + list(kw.values())): out |= self.of(x)
            return out if n.startswith("polars.") else frozenset()      # other libraries get values, not expressions
        if isinstance(f, S.Op) and f.op == "attr":
            m, r = f.args[1], f.args[0]
            base = self.of(r)
            eager = self.eager(r)
            if eager: return frozenset()
            if m in FIX: return frozenset()
            if m == "value_counts":
                if true(kw.get("sort")) or (a and true(a[0])): return frozenset()
                self.sources.add(t); return base | {t}
            if m == "unique" and not true(kw.get("maintain_order")):
                self.sources.add(t); return base | {t}
            if m == "mode": self.sources.add(t); return base | {t}
            if m in ("shuffle", "sample") and absent(kw.get("seed")) and not (m == "shuffle" and a and not absent(a[0])):
                self.sources.add(t); return base | {t}
            if m == "rank" and isinstance(kw.get("method"), S.Const) and kw["method"].v == "random" and "seed" not in kw:
                self.sources.add(t); return base | {t}
            ops = self.flat(list(a) + list(kw.values()))
            if m in LOOKUP:
                for x in ops: self.of(x)
                return base
            if m in ("select", "with_columns", "agg", "select_seq", "with_columns_seq"):
                return base | self.together(t, ops, "columns of one " + m)
            return self.together(t, [r] + ops, "operands of ." + m)
        out = frozenset()
        for x in self.flat(list(a) + list(kw.values())): out |= self.of(x)
        return out

def run(ctx, rep):
    n_places = set(); n_src = set()
    for q, (clo, ps, tr, err) in sorted(B.run_all(ctx).items()):
        fn = B.short(q)
        places, srcs, bad = set(), set(), {}
        for p in ps:
            o = Order()
            for t in p.calls: o.of(t)
            if isinstance(p.value, S.Term): o.of(p.value)
            places |= o.places; srcs |= o.sources
            for w, t, s in o.bad: bad.setdefault((w, S.show(s)[:120]), t)
        rep.count("functions of the Python layer")
        n_places |= {(fn, x) for x in places}; n_src |= {(fn, x) for x in srcs}
        if bad:
            for (w, s), t in sorted(bad.items(), key=lambda x: x[0]):
                rep.check("%s: %s carry the order of %s" % (fn, w, s[:60]), False, "%s: two %s come from separate evaluations of %s, which has no fixed row order, so their rows do not correspond" % (fn, w, s), function=fn)
        elif err or (tr and not places): rep.check("%s: rows correspond" % fn, None, err or "not followed to the end")
        elif places or srcs: rep.check("%s: rows correspond" % fn, True, "")
    rep.counts["places where operands correspond row by row"] = len(n_places)
    rep.counts["expressions with an open row order"] = len(n_src)
    rep.floor("places where operands correspond row by row", 400)
    rep.floor("expressions with an open row order", 4)
