"""Reference formulas of exprs/metrics.py, from their documentation and the textbook definitions."""
import polars as pl
import numpy as np
from polars_ds._utils import pl_plugin, str_to_expr as E

def _binary(x): return x.cast(pl.Boolean).cast(pl.UInt32)

def query_mad(x: "str | pl.Expr", use_mean: "bool"):
    x = E(x)
    return (x - x.mean()).abs().mean() if use_mean else (x - x.median()).abs().median()

def query_r2(actual: "str | pl.Expr", pred: "str | pl.Expr"):
    y, p = E(actual), E(pred)
    res = ((y - p) * (y - p)).sum()
    tot = ((y - y.mean()) ** 2).sum()
    return 1 - res / tot

def query_adj_r2(actual: "str | pl.Expr", pred: "str | pl.Expr", p: "int"):
    y, f = E(actual), E(pred)
    n = y.len()
    res = ((y - f) ** 2).sum()
    tot = ((y - y.mean()) ** 2).sum()
    return 1 - (res / (n - p)) / (tot / (n - 1))

def query_log_cosh(actual: "str | pl.Expr", pred: "str | pl.Expr", normalize: "bool"):
    y, p = E(actual), E(pred)
    s = (p - y).cosh().log().sum()
    return s / y.count() if normalize else s

def query_hubor_loss(actual: "str | pl.Expr", pred: "str | pl.Expr", delta: "float"):
    y, p = E(actual), E(pred)
    r = (y - p).abs()
    return pl.when(r <= delta).then(r * r / 2).otherwise(delta * (r - delta / 2)).sum() / y.count()

def query_l2(actual: "str | pl.Expr", pred: "str | pl.Expr", normalize: "bool"):
    y, p = E(actual), E(pred)
    s = ((y - p) ** 2).sum()
    return s / y.count() if normalize else s

def query_l1(actual: "str | pl.Expr", pred: "str | pl.Expr", normalize: "bool"):
    y, p = E(actual), E(pred)
    s = (y - p).abs().sum()
    return s / y.count() if normalize else s

def query_l_inf(actual: "str | pl.Expr", pred: "str | pl.Expr"):
    return (E(actual) - E(pred)).abs().max()

def query_log_loss(actual: "str | pl.Expr", pred: "str | pl.Expr", normalize: "bool"):
    y, p = E(actual).cast(pl.Float64), E(pred).cast(pl.Float64)
    one = pl.lit(1.0, dtype=pl.Float64)
    t = pl_plugin(symbol="pl_xlogy", args=[y, p], is_elementwise=True) + pl_plugin(symbol="pl_xlogy", args=[one - y, one - p], is_elementwise=True)
    return -t.mean() if normalize else -t.sum()

def query_mape(actual: "str | pl.Expr", pred: "str | pl.Expr", weighted: "bool"):
    y, p = E(actual), E(pred)
    if weighted: return (y - p).abs().sum() / y.abs().sum()
    return (1 - p / y).abs().mean()

def query_smape(actual: "str | pl.Expr", pred: "str | pl.Expr"):
    y, p = E(actual), E(pred)
    return ((y - p).abs() / (y.abs() + p.abs())).sum() / y.count()

def query_mase(actual: "str | pl.Expr", pred: "str | pl.Expr", train: "str | pl.Expr | float", freq: "int", use_mean: "bool"):
    if freq < 1: raise ValueError("freq")
    e = (E(actual) - E(pred)).abs()
    if isinstance(train, float):
        return (e.mean() if use_mean else e.median()) / train
    d = E(train).diff(freq).abs()
    return e.mean() / d.mean() if use_mean else e.median() / d.median()

def query_msle(actual: "str | pl.Expr", pred: "str | pl.Expr", normalize: "bool"):
    y, p = E(actual), E(pred)
    s = ((y.log1p() - p.log1p()) ** 2).sum()
    return s / y.count() if normalize else s

def query_roc_auc(actual: "str | pl.Expr", pred: "str | pl.Expr"):
    return pl_plugin(symbol="pl_roc_auc", args=[E(actual).cast(pl.UInt32), E(pred)], returns_scalar=True)

def query_tpr_fpr(actual: "str | pl.Expr", pred: "str | pl.Expr"):
    return pl_plugin(symbol="pl_tpr_fpr", args=[E(actual).cast(pl.UInt32), E(pred)])

def query_gini(actual: "str | pl.Expr", pred: "str | pl.Expr"):
    return 2 * query_roc_auc(actual, pred) - 1

def query_confusion_matrix(actual: "str | pl.Expr", pred: "str | pl.Expr", threshold: "float", all_metrics: "bool"):
    cell = 2 * _binary(E(actual)) + (E(pred) > threshold).cast(pl.UInt32)
    r = pl_plugin(symbol="pl_binary_confusion_matrix", args=[cell], returns_scalar=True)
    if all_metrics: return r
    return pl.struct([r.struct.field(k) for k in ("tn", "fp", "fn", "tp")])

def query_binary_metrics(actual: "str | pl.Expr", pred: "str | pl.Expr", threshold: "float"):
    return pl_plugin(symbol="pl_combo_b", args=[E(actual).cast(pl.UInt32), E(pred), pl.lit(threshold, dtype=pl.Float64)], returns_scalar=True)

def query_multi_roc_auc(actual: "str | pl.Expr", pred: "str | pl.Expr", n_classes: "{3}", strategy: "{'macro','weighted'}"):
    y, p = E(actual), E(pred)
    parts = []
    for i in range(n_classes):
        auc = query_roc_auc(y == i, p.list.get(i))
        parts.append(auc if strategy == "macro" else (y == i).sum() * auc)
    return pl.sum_horizontal(parts) / (n_classes if strategy == "macro" else pl.len())

def query_cat_cross_entropy(actual: "str | pl.Expr", pred: "str | pl.Expr", normalize: "bool", dense: "bool"):
    y, p = E(actual), E(pred)
    prob = p.list.get(y if dense else y.list.arg_max())
    s = -prob.log().sum()
    return s / y.count() if normalize else s

def query_mcc(y_true: "str | pl.Expr", y_pred: "str | pl.Expr"):
    return pl_plugin(symbol="pl_mcc", args=[(2 * E(y_true) + E(y_pred)).cast(pl.UInt32)], returns_scalar=True)

def query_fairness(pred: "str | pl.Expr", sensitive_cond: "pl.Expr"):
    p = E(pred)
    return (p.filter(sensitive_cond).mean() - p.filter(~sensitive_cond).mean()).abs()

def query_p_pct_score(pred: "str | pl.Expr", sensitive_cond: "pl.Expr"):
    p = E(pred)
    r = p.filter(sensitive_cond).mean() / p.filter(~sensitive_cond).mean()
    return pl.min_horizontal(r, 1 / r)
