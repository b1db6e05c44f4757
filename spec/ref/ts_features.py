"""Reference formulas of exprs/ts_features.py, from their documentation and the textbook definitions."""
import math
import polars as pl
from polars_ds._utils import pl_plugin, str_to_expr as E

def query_mid_range(x: "str | pl.Expr"): return (E(x).max() - E(x).min()) / 2
def query_symm_ratio(x: "str | pl.Expr"): return (E(x).mean() - E(x).median()).abs() / (E(x).max() - E(x).min())
def query_abs_energy(x: "str | pl.Expr"): return (E(x) * E(x)).sum()
def query_mean_abs_change(x: "str | pl.Expr"): return E(x).diff(null_behavior="drop").abs().mean()
def query_mean_n_abs_max(x: "str | pl.Expr", n_maxima: "{3}"): return E(x).abs().top_k(n_maxima).mean()
def query_cv(x: "str | pl.Expr", ddof: "int"): return E(x).std(ddof=ddof) / E(x).mean()
def query_count_uniques(x: "str | pl.Expr"): return E(x).is_unique().sum()
def query_range_count(x: "str | pl.Expr", lower: "float", upper: "float"): return ((E(x) >= lower) & (E(x) <= upper)).sum()

def _runs(where):
    c = pl.col(where) if isinstance(where, str) else where
    return c.rle().struct.rename_fields(["len", "value"])
def _true_runs(where):
    r = _runs(where)
    return r.filter(r.struct.field("value")).struct.field("len")
def query_longest_streak(where: "str | pl.Expr"): return _true_runs(where).max().fill_null(0).alias("longest_streak")
def query_avg_streak(where: "str | pl.Expr"): return _true_runs(where).mean().fill_null(0).alias("avg_streak")
def query_streak(where: "str | pl.Expr"): return _runs(where).struct.field("len").alias("streak_len")

def query_first_digit_cnt(var: "str | pl.Expr"): return pl_plugin(symbol="pl_benford_law", args=[E(var)], returns_scalar=True)
def query_benford(var: "str | pl.Expr"): return query_first_digit_cnt(var)

def query_similar_count(query: "list", target: "str | pl.Expr", threshold: "float", metric: "{'sql2','sqzl2'}", parallel: "bool", return_ratio: "bool"):
    q = pl.Series(name="", values=query, dtype=pl.Float64)
    if q.null_count() > 0: raise ValueError("nulls")
    n = len(q)
    if n <= 1: raise ValueError("too short")
    t = E(target)
    if metric == "sql2":
        r = pl_plugin(symbol="pl_subseq_sim_cnt_l2", args=[t.cast(pl.Float64), q], kwargs={"threshold": threshold, "parallel": parallel}, returns_scalar=True)
    else:
        # mean and variance of every complete window; variances are at least 1e-10
        mean = t.rolling_mean(window_size=n).slice(n - 1, None)
        var = pl.max_horizontal(t.rolling_var(window_size=n).slice(n - 1, None).fill_nan(1e-10), pl.lit(1e-10, dtype=pl.Float64))
        z = (pl.lit(q) - pl.lit(q).mean()) / pl.lit(q).std()
        r = pl_plugin(symbol="pl_subseq_sim_cnt_zl2", args=[t.cast(pl.Float64), z, mean, var], kwargs={"threshold": threshold, "parallel": parallel}, returns_scalar=True)
    return r / (t.len() - n + 1) if return_ratio else r

def query_lempel_ziv(b: "str | pl.Expr", as_ratio: "bool"):
    c = pl_plugin(symbol="pl_lempel_ziv_complexity", args=[E(b)], returns_scalar=True)
    return c / E(b).len() if as_ratio else c

def query_c3_stats(x: "str | pl.Expr", lag: "int"):
    # mean over the n - 2 lag complete triples of x[i] x[i-lag] x[i-2lag]
    t = E(x)
    return (t * t.shift(lag) * t.shift(2 * lag)).sum() / (t.len() - 2 * lag)

def query_cid_ce(x: "str | pl.Expr", normalize: "bool"):
    t = E(x)
    if normalize: t = (t - t.mean()) / t.std()
    return ((t - t.shift(-1)) ** 2).sum().sqrt()

def query_time_reversal_asymmetry_stats(x: "str | pl.Expr", n_lags: "int"):
    t = E(x)
    one, two = t.shift(-n_lags), t.shift(-2 * n_lags)
    return (two * two * one - one * t * t).mean()

def query_auto_corr(x: "str | pl.Expr", lag: "int", ddof: "int", normalize: "bool"):
    t = E(x)
    if not normalize: return (t * t.shift(-lag)).mean()
    c = t - t.mean()
    n = pl.when(pl.len() < lag).then(float("nan")).otherwise(pl.len() - lag)
    return (c * c.shift(-lag)).sum() / (n * t.var(ddof=ddof))

def query_entropy(x: "str | pl.Expr", base: "float", normalize: "bool"): return E(x).unique_counts().entropy(base=base, normalize=normalize)
def query_cond_entropy(x: "str | pl.Expr", y: "str | pl.Expr"):
    return pl_plugin(symbol="pl_conditional_entropy", args=[E(x), E(y)], returns_scalar=True, pass_name_to_apply=True)

def _windows(t, m):
    """columns t[i], t[i+1], .. t[i+m] over the n - m + 1 starts"""
    rows = t.len() - m + 1
    return [t.slice(0, length=rows)] + [t.shift(-i).slice(0, length=rows) for i in range(1, m + 1)]
def query_sample_entropy(ts: "str | pl.Expr", ratio: "float", m: "{2, 3}", parallel: "bool"):
    t = E(ts)
    w = [x if i == 0 else x.alias(str(i)) for i, x in enumerate(_windows(t, m))]
    return pl_plugin(symbol="pl_sample_entropy", args=[ratio * t.std(ddof=0)] + w, kwargs={"k": 0, "metric": "inf", "parallel": parallel}, returns_scalar=True, pass_name_to_apply=True)
def query_approx_entropy(ts: "str | pl.Expr", m: "{2, 3}", filtering_level: "float", scale_by_std: "bool", parallel: "bool"):
    t = E(ts)
    if filtering_level <= 0: raise ValueError("level")
    r = filtering_level * t.std() if scale_by_std else pl.lit(filtering_level, dtype=pl.Float64)
    w = [x.cast(pl.Float64) if i == 0 else x.cast(pl.Float64).alias(str(i)) for i, x in enumerate(_windows(t, m))]
    return pl_plugin(symbol="pl_approximate_entropy", args=[r] + w, kwargs={"k": 0, "metric": "inf", "parallel": parallel}, returns_scalar=True, pass_name_to_apply=True)

def query_knn_entropy(*features: "str | pl.Expr", k: "{3}", dist: "{'l2','inf'}", parallel: "bool"):
    return pl_plugin(symbol="pl_knn_entropy", args=[E(e).alias(str(i)) for i, e in enumerate(features)], kwargs={"k": k, "metric": dist, "parallel": parallel, "skip_eval": False}, returns_scalar=True, pass_name_to_apply=True)
def _copula(fs, k, parallel):
    rs = [E(f).rank() / E(f).len() for f in fs]
    return -pl_plugin(symbol="pl_knn_entropy", args=[e.alias(str(i)) for i, e in enumerate(rs)], kwargs={"k": k, "metric": "l2", "parallel": parallel, "skip_eval": False}, returns_scalar=True, pass_name_to_apply=True)
def query_copula_entropy(*features: "str | pl.Expr", k: "{3}", parallel: "bool"): return _copula(features, k, parallel)
def query_cond_indep(x: "str | pl.Expr", y: "str | pl.Expr", z: "str | pl.Expr", k: "{3}", parallel: "bool"):
    return _copula([x, y, z], k, parallel) - _copula([y, z], k, parallel) - _copula([x, z], k, parallel)
def query_transfer_entropy(x: "str | pl.Expr", source: "str | pl.Expr", lag: "{1, 2}", k: "{3}", parallel: "bool"):
    n = pl.len() - lag
    past, now, src = E(x).slice(0, n), E(x).slice(lag, n), E(source).slice(0, n)
    return _copula([now, src, past], k, parallel) - _copula([src, past], k, parallel) - _copula([now, past], k, parallel)

def query_permute_entropy(ts: "str | pl.Expr", tau: "{1, 2}", n_dims: "{2, 3}", base: "float"):
    t = E(ts)
    vectors = pl.concat_list([t] + [t.shift(-i * tau) for i in range(1, n_dims)]).head(t.len() - (n_dims - 1) * tau)
    return vectors.list.eval(pl.element().arg_sort()).value_counts().struct.field("count").entropy(base=base, normalize=True)

def query_ar_coeffs(x: "str | pl.Expr", lag: "{1, 2}", add_bias: "bool", null_policy: "{'raise','one','zero','0.5'}"):
    from polars_ds import lin_reg
    t = E(x)
    return lin_reg(*[t.shift(i).slice(offset=lag).alias(str(i)) for i in range(1, lag + 1)], target=t.slice(offset=lag), add_bias=add_bias, null_policy=null_policy)
