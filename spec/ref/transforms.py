"""Reference definitions of modeling/transforms.py: what is learned from df, and the expression applied to later data."""
import polars as pl
import polars.selectors as cs
import polars_ds.exprs.num as pds_num
import polars_ds.exprs.expr_linear as lr

def _learn(df, e): return df.select(e).item(0, 0)

def impute(df: "PolarsFrame", cols: "list[str]", method: "{'mean','median','mode'}"):
    out = []
    for c in cols:
        x = pl.col(c)
        v = x.mean() if method == "mean" else x.median() if method == "median" else x.drop_nulls().mode().first()
        out.append(x.fill_null(_learn(df, v)))
    return out

def conditional_impute(df: "PolarsFrame", rules_dict: "dict[str, str | pl.Expr]", method: "{'mean','median','mode'}"):
    out = []
    for c, r in rules_dict.items():
        cond = r if isinstance(r, pl.Expr) else pl.sql_expr(r)
        x = pl.col(c).filter(~cond)
        v = x.mean() if method == "mean" else x.median() if method == "median" else x.drop_nulls().mode().first()
        out.append(pl.when(cond).then(_learn(df, v)).otherwise(pl.col(c)).alias(c))
    return out

def linear_impute(df: "PolarsFrame", features: "list[str]", target: "str | pl.Expr", add_bias: "bool"):
    name = df.select(target).collect_schema().names()[0]
    fs = [pl.col(f) for f in features]
    b = _learn(df, lr.lin_reg(*fs, target=pl.col(name), add_bias=add_bias, null_policy="skip"))
    terms = [b[i] * f for i, f in enumerate(fs)]
    if add_bias: terms.append(pl.lit(b[-1], dtype=pl.Float64))
    return [pl.col(name).fill_null(pl.sum_horizontal(terms)).alias(name)]

def center(df: "PolarsFrame", cols: "list[str]"):
    return [pl.col(c) - _learn(df, pl.col(c).mean()) for c in cols]

def scale(df: "PolarsFrame", cols: "list[str]", method: "{'standard','min_max','abs_max'}"):
    out = []
    for c in cols:
        x = pl.col(c)
        lo, hi = _learn(df, x.min()), _learn(df, x.max())
        if method == "standard": out.append((x - _learn(df, x.mean())) / _learn(df, x.std(ddof=0)))
        elif method == "min_max": out.append((x - lo) / (hi - lo))
        else: out.append(x / _learn(df, pl.max_horizontal(x.min().abs(), x.max().abs())))
    return out

def robust_scale(df: "PolarsFrame", cols: "list[str]", q_low: "float", q_high: "float", method: "{'nearest','higher','lower','midpoint','linear'}"):
    if not (0.0 <= q_low <= 1.0 and 0.0 <= q_high <= 1.0 and q_low < q_high): raise ValueError("bounds")
    out = []
    for c in cols:
        lo, hi = _learn(df, pl.col(c).quantile(q_low, interpolation=method)), _learn(df, pl.col(c).quantile(q_high, interpolation=method))
        out.append((pl.col(c) - lo) / (hi - lo))
    return out

def winsorize(df: "PolarsFrame", cols: "list[str]", q_low: "float", q_high: "float", method: "{'nearest','higher','lower','midpoint','linear'}"):
    if not (0.0 <= q_low <= 1.0 and 0.0 <= q_high <= 1.0 and q_low < q_high): raise ValueError("bounds")
    return [pl.col(c).clip(_learn(df, pl.col(c).quantile(q_low, interpolation=method)), _learn(df, pl.col(c).quantile(q_high, interpolation=method))) for c in cols]

def rank_hot_encode(col: "str", ranking: "list[str]"):
    r = pl.col(col).replace_strict(old=ranking, new=[0, 1], default=None, return_dtype=pl.Int32)
    return [(r >= 1).cast(pl.Int8).fill_null(-1).alias("%s>=%s" % (col, ranking[1]))]

def _default(df, default, target):
    if default is None or isinstance(default, (int, float)): return default
    if default == "null": return None
    if default == "zero": return 0.0
    if isinstance(target, str): return _learn(df, pl.col(target).mean())
    if isinstance(target, pl.Expr): return _learn(df, target.mean())
    return target.mean()

def target_encode(df: "PolarsFrame", cols: "list[str]", target: "str | pl.Expr | pl.Series", min_samples_leaf: "int", smoothing: "float", default: "{'null','zero','mean'} | None | float"):
    names = df.select(cols).select(cs.string() | cs.categorical()).collect_schema().names()
    if len(names) == 0: raise ValueError("no columns")
    d = _default(df, default, target)
    out = []
    for c in names:
        m = _learn(df, pds_num.target_encode(c, target, min_samples_leaf=min_samples_leaf, smoothing=smoothing).implode())
        out.append(pl.col(c).replace_strict(old=m.struct.field("value"), new=m.struct.field("to"), default=d))
    return out

def woe_encode(df: "PolarsFrame", cols: "list[str]", target: "str | pl.Expr | pl.Series", default: "{'null','zero','mean'} | None | float"):
    names = df.select(cols).select(cs.string() | cs.categorical()).collect_schema().names()
    if len(names) == 0: raise ValueError("no columns")
    d = _default(df, default, target)
    out = []
    for c in names:
        m = _learn(df, pds_num.woe_discrete(c, target).implode())
        out.append(pl.col(c).replace_strict(old=m.struct.field("value"), new=m.struct.field("woe"), default=d))
    return out

def iv_encode(df: "PolarsFrame", cols: "list[str]", target: "str | pl.Expr | pl.Series", default: "{'null','zero','mean'} | None | float"):
    names = df.select(cols).select(cs.string() | cs.categorical()).collect_schema().names()
    if len(names) == 0: raise ValueError("no columns")
    d = _default(df, default, target)
    out = []
    for c in names:
        m = _learn(df, pds_num.info_value_discrete(c, target, return_sum=False).implode())
        out.append(pl.col(c).replace_strict(old=m.struct.field("value"), new=m.struct.field("iv"), default=d))
    return out

def one_hot_encode(df: "PolarsFrame", cols: "list[str]", separator: "str", drop_first: "bool"):
    seen = df.select(cols).select((cs.string() | cs.categorical()).unique().drop_nulls().cast(pl.String).implode().list.sort())
    out = []
    for t in seen.collect().get_columns():
        u = t[0]
        if len(u) > 1:
            for i in range(1 if drop_first else 0, len(u)):
                out.append(pl.col(t.name).eq_missing(u[i]).cast(pl.UInt8).alias(t.name + separator + u[i]))
    if len(out) == 0: raise ValueError("nothing to encode")
    return out
def polynomial_features(cols: "list[str]", degree: "{2,3}", interaction_only: "bool"):
    from itertools import combinations_with_replacement
    out = []
    for comb in combinations_with_replacement(cols, degree):
        if interaction_only and len(set(comb)) <= 1: continue
        out.append(pl.reduce(function=lambda acc, x: acc * x, exprs=list(comb)).alias("*".join(comb)))
    return out
