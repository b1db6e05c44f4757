"""Reference definition of the data inspection assistant."""
import polars as pl
import polars.selectors as cs
from itertools import combinations
from polars_ds.exprs.stats import corr
from polars_ds.exprs.ts_features import query_cond_entropy

_NUM_LISTS = [pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64, pl.Int8, pl.Int16, pl.Int32, pl.Int64]

def _flagged(names, row): return [c for c, ok in zip(names, row) if ok is True]

def _k(c, k, include_null):
    n = pl.col(c).n_unique()
    if include_null: return (n == k) | ((pl.col(c).null_count() > 0) & (n == k + 1))
    return n == k

class DIA:
    def __init__(self, df: "any"):
        self._frame = df.lazy()
        self.numerics = df.select(cs.numeric()).collect_schema().names()
        self.ints = df.select(cs.integer()).collect_schema().names()
        self.floats = df.select(cs.float()).collect_schema().names()
        self.strs = df.select(cs.string()).collect_schema().names()
        self.bools = df.select(cs.boolean()).collect_schema().names()
        self.cats = df.select(cs.categorical()).collect_schema().names()
        items = df.collect_schema().items()
        self.list_floats = [c for c, t in items if t.is_(pl.List(pl.Float32)) or t.is_(pl.List(pl.Float64))]
        self.list_bool = [c for c, t in items if t.is_(pl.List(pl.Boolean))]
        self.list_str = [c for c, t in items if t.is_(pl.List(pl.String))]
        self.list_ints = [c for c, t in items if t.is_(pl.List(pl.UInt8)) or t.is_(pl.List(pl.UInt16)) or t.is_(pl.List(pl.UInt32)) or t.is_(pl.List(pl.UInt64)) or t.is_(pl.List(pl.Int8)) or t.is_(pl.List(pl.Int16)) or t.is_(pl.List(pl.Int32)) or t.is_(pl.List(pl.Int64))]
        self.simple_types = self.numerics + self.strs + self.bools + self.cats + self.list_floats + self.list_ints + self.list_bool + self.list_str
        self.other_types = [c for c in df.collect_schema().names() if c not in self.simple_types]
    def special_values_report(self):
        return pl.concat(pl.collect_all([self._frame.select(
            pl.lit(c, dtype=pl.String).alias("column"),
            pl.col(c).null_count().alias("null_count"), (pl.col(c).null_count() / pl.len()).alias("null%"),
            pl.col(c).is_nan().sum().alias("NaN_count"), (pl.col(c).is_nan().sum() / pl.len()).alias("NaN%"),
            pl.col(c).is_infinite().sum().alias("inf_count"), (pl.col(c).is_infinite().sum() / pl.len()).alias("Inf%")) for c in self.numerics]))
    def col_validation(self, *rules: "tuple[pl.Expr,str]"):
        df = self._frame.select(*[r.name.keep() for r, _ in rules]).collect()
        if len(df) > 1: raise ValueError("not one row")
        out = df.transpose(include_header=True, column_names=["pass"]).with_columns(pl.Series(name="__reason__", values=[m for _, m in rules]))
        return out.filter(pl.col("pass").not_()).select("column", "__reason__")
    def null_corr(self, subset: "any", filter_by: "pl.Expr | None"):
        cols = self._frame.select(subset).collect_schema().names()
        f = self._frame if filter_by is None else self._frame.filter(filter_by)
        frame = f.select(pl.col(cols).is_null()).collect()
        total, n = frame.sum(), frame.shape[0]
        skip = set(c for c, k in zip(total.columns, total.row(0)) if k == 0 or k == n)
        xx, yy = [], []
        for x, y in combinations(cols, 2):
            if not (x in skip or y in skip):
                xx.append(x)
                yy.append(y)
        if len(xx) == 0:
            return pl.DataFrame({"column_1": [], "column_2": [], "null_corr": []}, schema={"column_1": pl.String, "column_2": pl.String, "null_corr": pl.Float64})
        row = frame.select(pl.corr(x, y).alias(str(i)) for i, (x, y) in enumerate(zip(xx, yy))).row(0)
        return pl.DataFrame({"column_1": xx, "column_2": yy, "null_corr": row}).sort(pl.col("null_corr").abs(), descending=True)
    def str_stats(self):
        return pl.concat(pl.collect_all([self._frame.select(
            pl.lit(c).alias("column"), pl.col(c).null_count().alias("null_count"), pl.col(c).n_unique().alias("n_unique"),
            pl.col(c).value_counts(sort=True).first().struct.field(c).alias("most_freq"), pl.col(c).value_counts(sort=True).first().struct.field("count").alias("most_freq_cnt"),
            pl.col(c).str.len_bytes().min().alias("min_byte_len"), pl.col(c).str.len_chars().min().alias("min_char_len"),
            pl.col(c).str.len_bytes().mean().alias("avg_byte_len"), pl.col(c).str.len_chars().mean().alias("avg_char_len"),
            pl.col(c).str.len_bytes().max().alias("max_byte_len"), pl.col(c).str.len_chars().max().alias("max_char_len"),
            pl.col(c).str.len_bytes().quantile(0.05).alias("5p_byte_len"), pl.col(c).str.len_bytes().quantile(0.95).alias("95p_byte_len")) for c in self.strs]))
    def corr(self, subset: "any", method: "{'pearson','spearman','xi','kendall','bicor'}"):
        names = self._frame.select(subset).collect_schema().names()
        return pl.concat(pl.collect_all([self._frame.select(pl.lit(x).alias("column"), *(corr(x, y, method=method).alias(y) for y in self.numerics)) for x in names]))
    def infer_prob(self):
        one = [pl.col(c).is_between(0.0, 1.0).all().alias(c) for c in self.floats]
        many = [(pl.col(c).list.eval((pl.element() >= 0.0).all()).list.first() & ((pl.col(c).list.sum() - 1.0).abs() < 1e-6) & (pl.col(c).list.len().min() == pl.col(c).list.len().max())).all().alias(c) for c in self.list_floats]
        return _flagged(self.floats + self.list_floats, self._frame.select(*one, *many).collect().row(0))
    def infer_high_null(self, threshold: "float"):
        return _flagged(self._frame.columns, self._frame.select((pl.col(c).null_count() >= pl.len() * threshold).alias(c) for c in self._frame.columns).collect().row(0))
    def infer_discrete(self, threshold: "float", max_val_cnt: "int"):
        check = [c for c in self._frame.columns if c not in self.bools + self.cats]
        return _flagged(check, self._frame.select(((pl.col(c).n_unique() < max_val_cnt) | (pl.col(c).n_unique() < threshold * pl.len())).alias(c) for c in check).collect().row(0))
    def infer_const(self, include_null: "bool"):
        return _flagged(self._frame.columns, self._frame.select(_k(c, 1, include_null).alias(c) for c in self._frame.columns).collect().row(0))
    def infer_binary(self, include_null: "bool"):
        return _flagged(self._frame.columns, self._frame.select(_k(c, 2, include_null).alias(c) for c in self._frame.columns).collect().row(0))
    def infer_k_distinct(self, k: "int", include_null: "bool"):
        if k < 1: raise ValueError("k")
        return _flagged(self._frame.columns, self._frame.select(_k(c, k, include_null).alias(c) for c in self._frame.columns).collect().row(0))
    def infer_corr(self, method: "{'pearson','spearman','xi','kendall'}"):
        xx, yy = [], []
        for x, y in combinations(self.numerics + self.bools, 2):
            xx.append(x)
            yy.append(y)
        row = self._frame.with_columns(pl.col(c).cast(pl.UInt8) for c in self.bools).select(corr(x, y, method=method).alias(f"{i}") for i, (x, y) in enumerate(zip(xx, yy))).collect().row(0)
        return pl.DataFrame({"x": xx, "y": yy, "corr": row}).sort(pl.col("corr").abs(), descending=True)
    def infer_dependency(self, subset: "any"):
        sub = self._frame.select(subset)
        check = [x for x in sub.collect_schema().names() if x in self.ints + self.strs + self.cats + self.bools]
        counts = sub.select(pl.col(c).n_unique() for c in check).collect().row(0)
        names = list(pl.DataFrame({"column": check, "n_unique": counts}).filter(pl.col("n_unique") > 1).sort("n_unique")["column"])
        if len(names) <= 1:
            return pl.DataFrame({"column": [], "by": [], "cond_entropy": []}, schema={"column": pl.String, "by": pl.String, "cond_entropy": pl.Float64})
        column, by = [], []
        for x, y in combinations(names, 2):
            column.append(x)
            by.append(y)
        ce = self._frame.select(query_cond_entropy(x, y).abs().alias(f"{i}") for i, (x, y) in enumerate(zip(column, by))).collect().row(0)
        return pl.DataFrame({"column": column, "by": by, "cond_entropy": ce}).sort("cond_entropy")
    def row_validation(self, *rules: "tuple[pl.Expr,str]", id_col: "str | None", columns_to_keep: "list[str] | None", all_reasons: "bool"):
        names = [n for _, n in rules]
        seen = set()
        for n in names:
            if n in seen: raise ValueError("duplicate")
            seen.add(n)
        if id_col is None:
            df, keep = self._frame.with_row_index(name="__index__"), ["__index__"]
        else:
            df, keep = self._frame, [id_col]
        if columns_to_keep is not None: keep = keep + columns_to_keep
        bad = df.select(*keep, *[r.alias(n) for r, n in rules]).filter(pl.all_horizontal(*names).not_())
        if all_reasons:
            why = pl.concat_list([pl.when(pl.col(c)).then(None).otherwise(pl.lit(c, dtype=pl.String)) for c in names]).list.drop_nulls().list.sort()
        else:
            why = pl.concat_list(names).list.arg_min().replace_strict(old=list(range(len(names))), new=names)
        return bad.select(*keep, why.alias("__reason__")).collect()
