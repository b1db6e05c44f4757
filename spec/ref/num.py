"""Reference formulas of exprs/num.py, from their documentation and the textbook definitions."""
import math
import polars as pl
from polars_ds._utils import pl_plugin, str_to_expr as E

def _row(symbol, x): return pl_plugin(symbol=symbol, args=[E(x)], is_elementwise=True)
def _finite(x): return x.filter(x.is_finite())

def l_inf_horizontal(*v: "str | pl.Expr", normalize: "bool"):
    m = pl.max_horizontal([E(x).abs() for x in v])
    return m / len(v) if normalize else m

def l2_sq_horizontal(*v: "str | pl.Expr", normalize: "bool"):
    m = pl.sum_horizontal([E(x) ** 2 for x in v])
    return m / len(v) if normalize else m

def l1_horizontal(*v: "str | pl.Expr", normalize: "bool"):
    m = pl.sum_horizontal([E(x).abs() for x in v])
    return m / len(v) if normalize else m

def is_increasing(x: "str | pl.Expr", strict: "bool"):
    d = E(x).diff()
    return (d > 0).all() if strict else (d >= 0).all()

def is_decreasing(x: "str | pl.Expr", strict: "bool"):
    d = E(x).diff()
    return (d < 0).all() if strict else (d <= 0).all()

def center(x: "str | pl.Expr"): return E(x) - E(x).mean()
def z_normalize(x: "str | pl.Expr"): return (E(x) - E(x).mean()) / E(x).std()
def softmax(x: "str | pl.Expr"): return E(x).exp() / E(x).exp().sum()

def _int(y): return pl.lit(y, dtype=pl.Int32) if isinstance(y, int) else E(y).cast(pl.Int32)
def gcd(x: "str | pl.Expr", y: "int | str | pl.Expr"):
    return pl_plugin(symbol="pl_gcd", args=[E(x).cast(pl.Int32), _int(y)], is_elementwise=True)
def lcm(x: "str | pl.Expr", y: "int | str | pl.Expr"):
    return pl_plugin(symbol="pl_lcm", args=[E(x).cast(pl.Int32), _int(y)], is_elementwise=True)

def _coord(y): return pl.lit(y) if isinstance(y, float) else E(y)
def haversine(x_lat: "str | pl.Expr", x_long: "str | pl.Expr", y_lat: "str | pl.Expr | float", y_long: "str | pl.Expr | float"):
    return pl_plugin(symbol="pl_haversine", args=[E(x_lat), E(x_long), _coord(y_lat), _coord(y_long)], is_elementwise=True, cast_to_supertype=True)

def _centered(features, c): return [E(f) - E(f).mean() for f in features] if c else [E(f) for f in features]
def singular_values(*features: "str | pl.Expr", center: "bool", as_explained_var: "bool", as_ratio: "bool"):
    sv = pl_plugin(symbol="pl_singular_values", args=_centered(features, center), returns_scalar=True)
    if as_explained_var:
        # rows with a null in any feature are dropped by the routine
        n = pl.all_horizontal([E(f).is_not_null() for f in features]).sum()
        sv = sv.list.eval(pl.element() ** 2) / (n - 1)
    if as_ratio: sv = sv.list.eval(pl.element() / pl.element().sum())
    return sv

def pca(*features: "str | pl.Expr", center: "bool"):
    return pl_plugin(symbol="pl_pca", args=_centered(features, center), changes_length=True, pass_name_to_apply=True)

def principal_components(*features: "str | pl.Expr", k: "{1}", center: "bool"):
    return pl_plugin(symbol="pl_principal_components", args=[pl.lit(k, dtype=pl.UInt32)] + _centered(features, center), pass_name_to_apply=True)

def jaccard_row(first: "str | pl.Expr", second: "str | pl.Expr"):
    return pl_plugin(symbol="pl_list_jaccard", args=[E(first), E(second)], is_elementwise=True)

def jaccard_col(first: "str | pl.Expr", second: "str | pl.Expr", count_null: "bool"):
    return pl_plugin(symbol="pl_jaccard", args=[E(first), E(second), pl.lit(count_null, dtype=pl.Boolean)], returns_scalar=True)

def _values(v):
    if isinstance(v, (str, pl.Expr)): return _finite(E(v)).cast(pl.Float64)
    return pl.lit(_finite(pl.Series(values=v, dtype=pl.Float64)))
def _values_ref(v):
    if isinstance(v, (str, pl.Expr)): return _finite(E(v)).cast(pl.Float64)
    return _finite(pl.lit(pl.Series(values=v, dtype=pl.Float64)))
def psi(new: "str | pl.Expr | list", baseline: "str | pl.Expr | list", n_bins: "{10}", return_report: "bool"):
    # quantile bins of the baseline, their right break points and counts
    bins = _values_ref(baseline).qcut(n_bins, left_closed=False, allow_duplicates=True, include_breaks=True)
    vc = bins.struct.rename_fields(["brk", "category"]).struct.field("brk").value_counts().sort()
    rep = pl_plugin(symbol="pl_psi_report", args=[_values(new), vc.struct.field("brk"), vc.struct.field("count")], changes_length=True).alias("psi_report")
    return rep if return_report else rep.struct.field("psi_bin").sum()

def psi_w_breakpoints(new: "str | pl.Expr", baseline: "str | pl.Expr", breakpoints: "list[float]"):
    return pl_plugin(symbol="pl_psi_w_bps", args=[_finite(E(baseline)), _finite(E(new)), pl.Series(values=breakpoints + [float("inf")])], changes_length=True).alias("psi_report")

def psi_discrete(new: "str | pl.Expr", baseline: "str | pl.Expr", return_report: "bool"):
    n = E(new).value_counts(sort=True).struct.rename_fields(["", "count"])
    b = E(baseline).value_counts(sort=True).struct.rename_fields(["", "count"])
    rep = pl_plugin(symbol="pl_psi_discrete_report", args=[n.struct.field(""), n.struct.field("count"), b.struct.field(""), b.struct.field("count")], changes_length=True)
    return rep if return_report else rep.struct.field("psi_bin").sum()

def _target(t): return E(t) if isinstance(t, (str, pl.Expr)) else pl.Series(values=t)
def _qbins(x, n): return _finite(E(x)).qcut(n, left_closed=False, allow_duplicates=True).cast(pl.String)
def woe(x: "str | pl.Expr", target: "str | pl.Expr | list", n_bins: "{10}"):
    return pl_plugin(symbol="pl_woe_discrete", args=[_qbins(x, n_bins), _target(target)], changes_length=True)
def woe_discrete(x: "str | pl.Expr", target: "str | pl.Expr | list"):
    return pl_plugin(symbol="pl_woe_discrete", args=[E(x).cast(pl.String), _target(target)], changes_length=True)
def info_value(x: "str | pl.Expr", target: "str | pl.Expr | list", n_bins: "{10}", return_sum: "bool"):
    r = pl_plugin(symbol="pl_iv", args=[_qbins(x, n_bins), _target(target)], changes_length=True)
    return r.struct.field("iv").sum() if return_sum else r
def info_value_discrete(x: "str | pl.Expr", target: "str | pl.Expr | list", return_sum: "bool"):
    r = pl_plugin(symbol="pl_iv", args=[E(x).cast(pl.String), _target(target)], changes_length=True)
    return r.struct.field("iv").sum() if return_sum else r

def integrate_trapz(y: "str | pl.Expr", x: "float | pl.Expr"):
    # a number is the (positive) spacing, an expression the abscissae
    dx = pl.lit(abs(x), pl.Float64) if isinstance(x, float) else E(x).cast(pl.Float64)
    return pl_plugin(symbol="pl_trapz", args=[E(y).cast(pl.Float64), dx], returns_scalar=True)

def convolve(x: "str | pl.Expr", kernel: "list | pl.Expr", fill_value: "float | pl.Expr", method: "{'direct','fft'}", mode: "{'full','same','left','right','valid'}", parallel: "bool"):
    k = _finite(kernel if isinstance(kernel, pl.Expr) else pl.Series(values=kernel, dtype=pl.Float64))
    # the direct routine slides the reversed kernel
    if method == "direct": k = k.reverse()
    return pl_plugin(symbol="pl_convolve", args=[E(x).fill_null(fill_value).cast(pl.Float64), k], kwargs={"mode": mode, "method": method, "parallel": parallel}, changes_length=True)

def list_amax(list_col: "str | pl.Expr"): return E(list_col).list.eval(pl.element().arg_max())
def gamma(x: "str | pl.Expr"): return _row("pl_gamma", x)
def expit(x: "str | pl.Expr"): return _row("pl_expit", x)
def logit(x: "str | pl.Expr"): return _row("pl_logit", x)
def exp2(x: "str | pl.Expr"): return _row("pl_exp2", x)
def fract(x: "str | pl.Expr"): return _row("pl_fract", x)
def trunc(x: "str | pl.Expr"): return _row("pl_trunc", x)
def next_up(x: "str | pl.Expr"): return _row("pl_next_up", x)
def next_down(x: "str | pl.Expr"): return _row("pl_next_down", x)
def digamma(x: "str | pl.Expr"): return _row("pl_diagamma", x)
def sinc(x: "str | pl.Expr"):
    y = math.pi * pl.when(E(x) == 0).then(1e-20).otherwise(E(x))
    return y.sin() / y
def xlogy(x: "str | pl.Expr", y: "str | pl.Expr"):
    return pl_plugin(symbol="pl_xlogy", args=[E(x).cast(pl.Float64), E(y).cast(pl.Float64)], is_elementwise=True)

def detrend(x: "str | pl.Expr", method: "{'linear','mean'}"):
    t = E(x)
    if method == "mean": return t - t.mean()
    i = pl.int_range(0, t.len(), eager=False)
    known = i.filter(t.is_not_null())
    b = pl.cov(t, i) / known.var()
    return t - b * i - (t.mean() - b * known.mean())

def rfft(series: "str | pl.Expr", n: "{None, 8}", return_full: "bool"):
    return pl_plugin(symbol="pl_rfft", args=[E(series).cast(pl.Float64), pl.lit(n, pl.UInt32), pl.lit(return_full, pl.Boolean)], changes_length=True)

def target_encode(s: "str | pl.Expr", target: "str | pl.Expr | list", min_samples_leaf: "int", smoothing: "float"):
    t = E(target) if isinstance(target, (str, pl.Expr)) else pl.lit(pl.Series(values=target))
    return pl_plugin(symbol="pl_target_encode", args=[E(s), t, t.mean()], kwargs={"min_samples_leaf": float(min_samples_leaf), "smoothing": smoothing}, changes_length=True)

def isotonic_regression(y: "str | pl.Expr", weights: "str | pl.Expr | None", increasing: "bool"):
    a = [E(y).cast(pl.Float64)]
    if weights is not None: a = a + [E(weights).cast(pl.Float64)]
    return pl_plugin(symbol="pl_isotonic_regression", args=a, kwargs={"has_weights": weights is not None, "increasing": increasing})
