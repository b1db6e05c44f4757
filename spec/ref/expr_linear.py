"""Reference definitions of exprs/expr_linear.py: closed forms of simple regression and what the native solvers are given."""
import polars as pl
from polars_ds._utils import pl_plugin
from polars_ds.exprs.expr_linear import lr_formula as L
from polars_ds.config import _lin_reg_expr_symbol as _sym

def simple_lin_reg(x: "str | pl.Expr", target: "str | pl.Expr", add_bias: "bool", weights: "str | pl.Expr | None", return_pred: "bool"):
    x, y = L(x), L(target)
    w = 1 if weights is None else L(weights)
    if add_bias:
        if weights is None: mx, my = x.mean(), y.mean()
        else: mx, my = (w * x).sum() / w.sum(), (w * y).sum() / w.sum()
        b = (w * (x - mx) * (y - my)).sum() / (w * (x - mx) * (x - mx)).sum()
        a = my - b * mx
        if return_pred: return pl.struct(pred=b * x + a, resid=y - b * x - a).alias("lr_pred")
        return b.append(a).implode().alias("coeffs")
    b = (w * x * y).sum() / (w * x * x).sum()
    if return_pred: return pl.struct(pred=b * x, resid=y - b * x).alias("lr_pred")
    return b.implode().alias("coeffs")

def _solve(xs, target, add_bias, weights, return_pred, l1_reg, l2_reg, tol, solver, null_policy):
    kw = {"bias": add_bias, "null_policy": null_policy, "l1_reg": l1_reg, "l2_reg": l2_reg, "solver": solver, "tol": tol, "weighted": weights is not None}
    cols = [] if weights is None else [L(weights).cast(pl.Float64)]
    cols = cols + [L(target)] + [L(z) for z in xs]
    if return_pred: return pl_plugin(symbol=_sym("pl_lstsq_pred"), args=cols, kwargs=kw, pass_name_to_apply=True).alias("lr_pred")
    return pl_plugin(symbol=_sym("pl_lstsq"), args=cols, kwargs=kw, returns_scalar=True, pass_name_to_apply=True).alias("coeffs")

def lin_reg(*x: "str | pl.Expr", target: "str | pl.Expr | list[str]", add_bias: "bool", weights: "str | pl.Expr | None", return_pred: "bool", l1_reg: "float", l2_reg: "float", tol: "float", solver: "{'qr','svd','cholesky'}", null_policy: "{'skip','raise'}"):
    if not isinstance(target, list): return _solve(x, target, add_bias, weights, return_pred, l1_reg, l2_reg, tol, solver, null_policy)
    kw = {"bias": add_bias, "null_policy": null_policy, "solver": solver, "last_target_idx": len(target), "l2_reg": l2_reg}
    cols = [L(t).alias(f"target_{i}") for i, t in enumerate(target)] + [L(z) for z in x]
    if return_pred: return pl_plugin(symbol=_sym("pl_lstsq_multi_pred"), args=cols, kwargs=kw, pass_name_to_apply=True).alias("lr_pred")
    return pl_plugin(symbol=_sym("pl_lstsq_multi"), args=cols, kwargs=kw, returns_scalar=True, pass_name_to_apply=True).alias("coeffs")
def query_lstsq(*x: "str | pl.Expr", target: "str | pl.Expr | list[str]", add_bias: "bool", weights: "str | pl.Expr | None", return_pred: "bool", l1_reg: "float", l2_reg: "float", tol: "float", solver: "{'qr','svd','cholesky'}", null_policy: "{'skip','raise'}"):
    return lin_reg(*x, target=target, add_bias=add_bias, weights=weights, return_pred=return_pred, l1_reg=l1_reg, l2_reg=l2_reg, tol=tol, solver=solver, null_policy=null_policy)

def lin_reg_w_rcond(*x: "str | pl.Expr", target: "str | pl.Expr", add_bias: "bool", rcond: "float", l2_reg: "float", null_policy: "{'raise','skip'}"):
    return pl_plugin(symbol=_sym("pl_lstsq_w_rcond"), args=[L(target)] + [L(z) for z in x], pass_name_to_apply=True,
                     kwargs={"bias": add_bias, "null_policy": null_policy, "l1_reg": 0.0, "l2_reg": l2_reg, "solver": "", "tol": abs(rcond)})
def query_lstsq_w_rcond(*x: "str | pl.Expr", target: "str | pl.Expr", add_bias: "bool", rcond: "float", l2_reg: "float", null_policy: "{'raise','skip'}"):
    return lin_reg_w_rcond(*x, target=target, add_bias=add_bias, rcond=rcond, l2_reg=l2_reg, null_policy=null_policy)

def recursive_lin_reg(*x: "str | pl.Expr", target: "str | pl.Expr", start_with: "{5}", add_bias: "bool", l2_reg: "float", null_policy: "{'raise','skip'}"):
    return pl_plugin(symbol=_sym("pl_recursive_lstsq"), args=[L(target)] + [L(z) for z in x], pass_name_to_apply=True,
                     kwargs={"null_policy": null_policy, "n": start_with, "bias": add_bias, "lambda": abs(l2_reg), "min_size": 0})
def query_recursive_lstsq(*x: "str | pl.Expr", target: "str | pl.Expr", start_with: "{5}", add_bias: "bool", l2_reg: "float", null_policy: "{'raise','skip'}"):
    return recursive_lin_reg(*x, target=target, start_with=start_with, add_bias=add_bias, l2_reg=l2_reg, null_policy=null_policy)
def rolling_lin_reg(*x: "str | pl.Expr", target: "str | pl.Expr", window_size: "{5}", add_bias: "bool", l2_reg: "float", min_valid_rows: "{None, 3}", null_policy: "{'raise','skip'}"):
    least = len(x) if min_valid_rows is None else min_valid_rows
    return pl_plugin(symbol=_sym("pl_rolling_lstsq"), args=[L(target)] + [L(z) for z in x], pass_name_to_apply=True,
                     kwargs={"null_policy": null_policy, "n": window_size, "bias": add_bias, "lambda": abs(l2_reg), "min_size": least})
def query_rolling_lstsq(*x: "str | pl.Expr", target: "str | pl.Expr", window_size: "{5}", add_bias: "bool", l2_reg: "float", min_valid_rows: "{None, 3}", null_policy: "{'raise','skip'}"):
    return rolling_lin_reg(*x, target=target, window_size=window_size, add_bias=add_bias, l2_reg=l2_reg, min_valid_rows=min_valid_rows, null_policy=null_policy)

def lin_reg_report(*x: "str | pl.Expr", target: "str | pl.Expr", weights: "str | pl.Expr | None", add_bias: "bool", null_policy: "{'raise','skip'}", std_err: "{'se','hc0','hc1','hc2','hc3'}"):
    y = L(target)
    cols = ([] if weights is None else [L(weights).cast(pl.Float64)]) + [y.var(), y] + [L(z) for z in x]
    return pl_plugin(symbol=_sym("pl_lin_reg_report" if weights is None else "pl_wls_report"), args=cols, changes_length=True, pass_name_to_apply=True,
                     kwargs={"bias": add_bias, "null_policy": null_policy, "l1_reg": 0.0, "l2_reg": 0.0, "solver": "qr", "tol": 0.0, "std_err": std_err})
def query_lstsq_report(*x: "str | pl.Expr", target: "str | pl.Expr", weights: "str | pl.Expr | None", add_bias: "bool", null_policy: "{'raise','skip'}"):
    return lin_reg_report(*x, target=target, weights=weights, add_bias=add_bias, null_policy=null_policy, std_err="se")
