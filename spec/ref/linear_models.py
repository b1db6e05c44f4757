"""Reference definition of the regression model classes."""
import numpy as np
import polars as pl
from polars_ds._polars_ds import PyLR, PyElasticNet, PyOnlineLR
from polars_ds.exprs.expr_linear import query_lstsq_report

def _names(x): return [] if x is None else list(x)

def _drop(X, y, keep): return (X[keep], y[keep])

def _np(X, y, policy):
    if policy == "ignore": return (X, y)
    if policy == "raise":
        if np.any(np.isnan(X)) | np.any(np.isnan(y)): raise ValueError("nulls")
        return (X, y)
    bad_y = np.any(np.isnan(y), axis=1)
    if policy == "skip":
        bad = np.any(np.isnan(X), axis=1) | bad_y
        return (X[~bad], y[~bad])
    if policy == "zero": v = 0.0
    elif policy == "one": v = 1.0
    else:
        v = float(policy)
        if not np.isfinite(v): raise ValueError("policy")
    return (np.nan_to_num(X, nan=v)[~bad_y], y[~bad_y])

def _df(df, features, target, policy):
    if policy == "ignore": return df
    if policy == "raise":
        n = df.lazy().select(*features, target).null_count().collect().sum_horizontal()[0]
        if n > 0: raise ValueError("nulls")
        return df
    if policy == "skip": return df.drop_nulls(subset=features + [target])
    if policy == "zero": v = 0.0
    elif policy == "one": v = 1.0
    else:
        v = float(policy)
        if not np.isfinite(v): raise ValueError("policy")
    return df.with_columns(pl.col(features).fill_null(v)).drop_nulls(subset=target)

def _data(df, features, target, policy):
    d = _df(df.lazy(), features, target, policy).select(*features, target).collect()
    return d.select(features).to_numpy(), d.select(target).to_numpy()

def _formula(features, native, name, df):
    if len(features) <= 0: raise ValueError("no names")
    pred = pl.sum_horizontal([b * pl.col(c) for c, b in zip(features, native.coeffs)])
    if native.bias != 0.0: pred = pred + native.bias
    return df.with_columns(pred.alias(name))

class LR:
    def __init__(self, has_bias: "bool", lambda_: "float", solver: "{'svd','qr'} | str", feature_names_in_: "list[str] | None"):
        self._lr = PyLR(solver, lambda_, has_bias)
        self.feature_names_in_ = _names(feature_names_in_)
    @classmethod
    def from_values(cls, coeffs: "any", bias: "float", feature_names_in_: "list[str] | None"):
        m = cls(has_bias=(bias != 0.0), lambda_=0.0, solver="Not Solved", feature_names_in_=feature_names_in_)
        m._lr.set_coeffs_and_bias(np.ascontiguousarray(coeffs, dtype=np.float64).flatten(), bias)
        return m
    def is_fit(self): return self._lr.is_fit()
    def set_input_features(self, features: "list[str]"):
        self.feature_names_in_ = list(features)
        return self
    def coeffs(self): return self._lr.coeffs
    def bias(self): return self._lr.bias
    def fit(self, X: "any", y: "any", null_policy: "{'ignore','raise','skip','zero','one'} | str"):
        X, y = _np(X, y.reshape((-1, 1)), null_policy)
        self._lr.fit(X, y)
        return self
    def fit_df(self, df: "PolarsFrame", features: "list[str]", target: "str", null_policy: "{'ignore','raise','skip','zero','one'} | str", show_report: "bool"):
        if show_report and self._lr.lambda_ == 0.0:
            print(df.lazy().select(query_lstsq_report(*features, target=target).alias("report")).unnest("report").collect())
        X, y = _data(df, features, target, null_policy)
        self.feature_names_in_ = list(features)
        self._lr.fit(X, y.reshape((-1, 1)))
        return self
    def predict(self, X: "any"): return self._lr.predict(X).reshape((-1, 1))
    def predict_df(self, df: "PolarsFrame", name: "str"): return _formula(self.feature_names_in_, self._lr, name, df)

class ElasticNet:
    def __init__(self, l1_reg: "float", l2_reg: "float", has_bias: "bool", tol: "float", max_iter: "int", feature_names_in_: "list[str] | None"):
        if l1_reg <= 0.0 and l2_reg <= 0.0: raise ValueError("no penalty")
        self._en = PyElasticNet(l1_reg, l2_reg, has_bias, tol, max_iter)
        self.feature_names_in_ = _names(feature_names_in_)
    @classmethod
    def from_values(cls, coeffs: "any", bias: "float", feature_names_in_: "list[str] | None"):
        m = cls(float("nan"), float("nan"), has_bias=(bias != 0.0), tol=1e-5, max_iter=2000, feature_names_in_=feature_names_in_)
        m._en.set_coeffs_and_bias(np.ascontiguousarray(coeffs, dtype=np.float64).flatten(), bias)
        return m
    def is_fit(self): return self._en.is_fit()
    def set_input_features(self, features: "list[str]"):
        self.feature_names_in_ = list(features)
        return self
    def coeffs(self): return self._en.coeffs
    def has_bias(self): return self._en.has_bias()
    def bias(self): return self._en.bias
    def fit(self, X: "any", y: "any", null_policy: "{'ignore','raise','skip','zero','one'} | str"):
        X, y = _np(X, y.reshape((-1, 1)), null_policy)
        self._en.fit(X, y)
        return self
    def fit_df(self, df: "PolarsFrame", features: "list[str]", target: "str", null_policy: "{'ignore','raise','skip','zero','one'} | str"):
        X, y = _data(df, features, target, null_policy)
        self.feature_names_in_ = list(features)
        self._en.fit(X, y.reshape((-1, 1)))
        return self
    def predict(self, X: "any"): return self._en.predict(X).reshape((-1, 1))
    def predict_df(self, df: "PolarsFrame", name: "str"): return _formula(self.feature_names_in_, self._en, name, df)

class OnlineLR:
    def __init__(self, lambda_: "float", has_bias: "bool"):
        self._lr = PyOnlineLR(lambda_, has_bias)
    def is_fit(self): return self._lr.is_fit()
    def coeffs(self): return self._lr.coeffs
    def bias(self): return self._lr.bias
    def inv(self): return self._lr.inv
    def fit(self, X: "any", y: "any"):
        if np.any(np.isnan(X)) | np.any(np.isnan(y)): raise ValueError("nulls")
        self._lr.fit(X, y.reshape((-1, 1)))
        return self
    def update(self, X: "any", y: "float | numpy.ndarray", c: "float"):
        if not self._lr.is_fit(): raise ValueError("not fitted")
        self._lr.update(X.reshape((1, -1)), np.array([[y]]) if isinstance(y, float) else y.reshape((1, 1)), c)
        return self
    def predict(self, X: "any"): return self._lr.predict(X).reshape((-1, 1))
