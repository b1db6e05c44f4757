"""Reference formulas of exprs/stats.py, from their documentation and the textbook definitions."""
import polars as pl
from polars_ds._utils import pl_plugin, str_to_expr as E

def _f64(v): return pl.lit(v, dtype=pl.Float64)
def _seed(s): return pl.lit(s, dtype=pl.UInt64)
def _finite(x): return x.filter(x.is_finite())
def _alt(a): return pl.lit(a, dtype=pl.String)
def _n(x): return x.len().cast(pl.UInt64)
def _length(n): return pl.lit(n, dtype=pl.UInt32) if isinstance(n, int) else n

def ttest_ind(var1: "str | pl.Expr", var2: "str | pl.Expr", alternative: "{'two-sided','less','greater'}", equal_var: "bool"):
    a, b = E(var1), E(var2)
    if equal_var:
        return pl_plugin(symbol="pl_ttest_2samp", args=[a.mean(), b.mean(), a.var(), b.var(), a.count().cast(pl.UInt64), _alt(alternative)], returns_scalar=True)
    a, b = _finite(a), _finite(b)
    return pl_plugin(symbol="pl_welch_t", args=[a.mean(), b.mean(), a.var(), b.var(), _n(a), _n(b), _alt(alternative)], returns_scalar=True)

def ttest_1samp(var1: "str | pl.Expr", pop_mean: "float", alternative: "{'two-sided','less','greater'}"):
    a = _finite(E(var1))
    return pl_plugin(symbol="pl_ttest_1samp", args=[a.mean(), _f64(pop_mean), a.var(), _n(a), _alt(alternative)], returns_scalar=True)

def ttest_ind_from_stats(var1: "str | pl.Expr", mean: "float", var: "float", cnt: "int", alternative: "{'two-sided','less','greater'}", equal_var: "bool"):
    a = E(var1)
    if equal_var:
        return pl_plugin(symbol="pl_ttest_2samp", args=[a.mean(), _f64(mean), a.var(), _f64(var), a.count().cast(pl.UInt64), _alt(alternative)], returns_scalar=True)
    a = _finite(a)
    return pl_plugin(symbol="pl_welch_t", args=[a.mean(), _f64(mean), a.var(), _f64(var), _n(a), pl.lit(cnt, dtype=pl.UInt64), _alt(alternative)], returns_scalar=True)

def ks_2samp(var1: "str | pl.Expr", var2: "str | pl.Expr", alpha: "float", is_binary: "bool"):
    a, b = E(var1), E(var2)
    if is_binary: a, b = b.filter(a == 1), b.filter(a == 0)
    return pl_plugin(symbol="pl_ks_2samp", args=[_finite(a).sort(), _finite(b).sort(), _f64(alpha)], returns_scalar=True)

def f_test(*variables: "str | pl.Expr", group: "str | pl.Expr"):
    a = [E(group)] + [E(v) for v in variables]
    if len(a) == 2: return pl_plugin(symbol="pl_f_test", args=a, returns_scalar=True)
    return pl_plugin(symbol="pl_f_test", args=a, changes_length=True)

def chi2(var1: "str | pl.Expr", var2: "str | pl.Expr", return_full: "bool"):
    a = [E(var1), E(var2)]
    if return_full: return pl_plugin(symbol="pl_chi2_full", args=a, changes_length=True)
    return pl_plugin(symbol="pl_chi2", args=a, returns_scalar=True)

def winsorize(x: "str | pl.Expr", q_low: "float", q_high: "float", method: "{'nearest','higher','lower','midpoint','linear'}"):
    if not (0.0 < q_low < 1.0 and 0.0 < q_high < 1.0 and q_low < q_high): raise ValueError("quantiles")
    x = E(x)
    return x.clip(x.quantile(q_low, interpolation=method), x.quantile(q_high, interpolation=method))

def perturb(x: "str | pl.Expr", epsilon: "float", positive: "bool", seed: "int | None"):
    e = abs(epsilon)
    lo, hi = (_f64(0.0), _f64(e)) if positive else (_f64(-e / 2), _f64(e / 2))
    return pl_plugin(symbol="pl_perturb", args=[E(x), lo, hi, _seed(seed)], is_elementwise=True)

def jitter(x: "str | pl.Expr", std: "float | pl.Expr", seed: "int | None"):
    if isinstance(std, float):
        if std < 0: raise ValueError("std")
        if std == 0: return E(x)
        s = _f64(std)
    else: s = std.cast(pl.Float64)
    return pl_plugin(symbol="pl_jitter", args=[E(x), s, _seed(seed)], is_elementwise=True)

def normal_test(var: "str | pl.Expr"):
    v = _finite(E(var))
    return pl_plugin(symbol="pl_normal_test", args=[v.skew(), v.kurtosis(fisher=False), v.count().cast(pl.UInt32)], returns_scalar=True)

def random(lower: "float | pl.Expr", upper: "float | pl.Expr", seed: "int | None", length: "int | pl.Expr"):
    lo = _f64(lower) if isinstance(lower, float) else lower
    hi = _f64(upper) if isinstance(upper, float) else upper
    return pl_plugin(symbol="pl_random", args=[_length(length), lo, hi, _seed(seed)], is_elementwise=True)

def random_null(x: "str | pl.Expr", pct: "float", seed: "int | None"):
    if pct <= 0.0 or pct >= 1.0: raise ValueError("pct")
    u = pl_plugin(symbol="pl_random", args=[pl.len(), _f64(0.0), _f64(1.0), _seed(seed)], is_elementwise=True)
    return pl.when(u < pct).then(None).otherwise(E(x))

def random_int(lower: "int | pl.Expr", upper: "int | pl.Expr", seed: "int | None", length: "int | pl.Expr"):
    lo = pl.lit(lower, dtype=pl.Int32) if isinstance(lower, int) else lower.cast(pl.Int32)
    hi = pl.lit(upper, dtype=pl.Int32) if isinstance(upper, int) else upper.cast(pl.Int32)
    return pl_plugin(symbol="pl_rand_int", args=[_length(length), lo, hi, _seed(seed)], is_elementwise=True)

def random_str(min_size: "int", max_size: "int", seed: "int | None", length: "int | pl.Expr"):
    lo, hi = min_size, max_size
    if min_size > max_size: lo, hi = max_size, min_size
    return pl_plugin(symbol="pl_rand_str", args=[_length(length), pl.lit(lo, dtype=pl.UInt32), pl.lit(hi, dtype=pl.UInt32), _seed(seed)], is_elementwise=True)

def random_binomial(n: "int", p: "int", seed: "int | None", length: "int | pl.Expr"):
    if n < 1: raise ValueError("n")
    return pl_plugin(symbol="pl_rand_binomial", args=[_length(length), pl.lit(n, dtype=pl.UInt32), _f64(p), _seed(seed)], is_elementwise=True)

def random_exp(lambda_: "float", seed: "int | None", length: "int | pl.Expr"):
    return pl_plugin(symbol="pl_rand_exp", args=[_length(length), _f64(lambda_), _seed(seed)], is_elementwise=True)

def random_normal(mean: "float | pl.Expr", std: "float | pl.Expr", seed: "int | None", length: "int | pl.Expr"):
    m = _f64(mean) if isinstance(mean, float) else mean
    s = _f64(std) if isinstance(std, float) else std
    return pl_plugin(symbol="pl_rand_normal", args=[_length(length), m, s, _seed(seed)], is_elementwise=True)

def mann_whitney_u(var1: "str | pl.Expr", var2: "str | pl.Expr", alternative: "{'two-sided','less','greater'}"):
    a, b = _finite(E(var1)), _finite(E(var2))
    n1, n2 = a.len().cast(pl.Float64), b.len().cast(pl.Float64)
    ranks = a.append(b).rank()
    u1 = ranks.slice(0, length=a.len()).sum() - n1 * (n1 + 1) / 2
    return pl_plugin(symbol="pl_mann_whitney_u", args=[u1, n1 * n2 - u1, n1 * n2 / 2, ranks.sort(), _alt(alternative)], returns_scalar=True)

def hmean(var: "str | pl.Expr"):
    x = E(var)
    return x.count() / (1 / x).sum()

def weighted_hmean(var: "str | pl.Expr", weights: "str | pl.Expr", is_normalized: "bool"):
    x, w = E(var), E(weights)
    s = (w / x).sum()
    return 1 / s if is_normalized else w.sum() / s

def gmean(var: "str | pl.Expr"): return E(var).log().mean().exp()

def weighted_gmean(var: "str | pl.Expr", weights: "str | pl.Expr", is_normalized: "bool"):
    x, w = E(var), E(weights)
    s = (w * x.log()).sum()
    return s.exp() if is_normalized else (s / w.sum()).exp()

def _wmean(x, w): return (x * w).sum() / w.sum()

def weighted_mean(var: "str | pl.Expr", weights: "str | pl.Expr", is_normalized: "bool"):
    x, w = E(var), E(weights)
    return (x * w).sum() if is_normalized else _wmean(x, w)

def weighted_var(var: "str | pl.Expr", weights: "str | pl.Expr", freq_weights: "bool"):
    x, w = E(var), E(weights)
    s = (w * (x - _wmean(x, w)) ** 2).sum()
    return s / (w.sum() - 1) if freq_weights else s / w.sum()

def _wcov(x, y, w): return (w * (x - _wmean(x, w)) * (y - _wmean(y, w))).sum() / w.sum()

def weighted_cov(x: "str | pl.Expr", y: "str | pl.Expr", weights: "str | pl.Expr"): return _wcov(E(x), E(y), E(weights))

def weighted_corr(x: "str | pl.Expr", y: "str | pl.Expr", weights: "str | pl.Expr"):
    x, y, w = E(x), E(y), E(weights)
    sxx = (w * (x - _wmean(x, w)) ** 2).sum()
    syy = (w * (y - _wmean(y, w)) ** 2).sum()
    return _wcov(x, y, w) * w.sum() / (sxx * syy).sqrt()

def cosine_sim(x: "str | pl.Expr", y: "str | pl.Expr"):
    x, y = E(x), E(y)
    return (x * y).sum() / ((x * x).sum() * (y * y).sum()).sqrt()

def weighted_cosine_sim(x: "str | pl.Expr", y: "str | pl.Expr", weights: "str | pl.Expr"):
    x, y, w = E(x), E(y), E(weights)
    return (w * x * y).sum() / ((w * x * x).sum() * (w * y * y).sum()).sqrt()

def kendall_tau(x: "str | pl.Expr", y: "str | pl.Expr"):
    x, y = E(x).fill_nan(None), E(y).fill_nan(None)
    return pl_plugin(symbol="pl_kendall_tau", args=[x.rank(method="min"), y.rank(method="min")], returns_scalar=True)

def bicor(x: "str | pl.Expr", y: "str | pl.Expr", c: "float"):
    parts = []
    for v in (E(x), E(y)):
        d = v - v.median()
        u = d / (c * d.abs().median())
        parts.append(d * (1 - u ** 2) ** 2 * ((1 - u.abs()) > 0).cast(pl.Float64))
    a, b = parts
    return (a * b).sum() / ((a * a).sum() * (b * b).sum()).sqrt()

def xi_corr(x: "str | pl.Expr", y: "str | pl.Expr", seed: "int | None", return_p: "bool"):
    x, y = E(x), E(y)
    args = [x.rank(method="random", seed=seed), y.rank(method="max").cast(pl.Float64), (-y).rank(method="max").cast(pl.Float64)]
    return pl_plugin(symbol="pl_xi_corr_w_p" if return_p else "pl_xi_corr", args=args, returns_scalar=True)

def corr(x: "str | pl.Expr", y: "str | pl.Expr", method: "{'pearson','spearman','xi','kendall','bicor'}"):
    if method == "xi": return xi_corr(x, y, None, False)
    if method == "kendall": return kendall_tau(x, y)
    if method == "bicor": return bicor(x, y, 9.0)
    return pl.corr(x, y, method=method)

def add_noise(x: "str | pl.Expr", noise_type: "{'gaussian','uniform'}"):
    if noise_type == "gaussian":
        return pl_plugin(symbol="pl_jitter", args=[E(x), _f64(1.0), _seed(None)], is_elementwise=True)
    return perturb(x, 1e-5, False, None)
