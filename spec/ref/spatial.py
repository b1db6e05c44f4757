"""Reference definition of spatial.KDTree: which compiled call answers each query."""
import numpy as np
import warnings
from polars_ds._polars_ds import PyKDT

class KDTree:
    def __init__(self, X: "any", distance: "{'l1','l2','sql2','inf'} | str"):
        if X.ndim != 2: raise ValueError("not a matrix")
        if distance not in ("l1", "l2", "sql2", "inf"): raise ValueError("unknown distance")
        self.kdt = PyKDT(X if X.flags["C_CONTIGUOUS"] else np.ascontiguousarray(X), distance=distance)
    def __len__(self): return self.kdt.count()
    def count(self): return self.kdt.count()
    def add(self, X: "any"):
        if X.ndim != 2: raise ValueError("not a matrix")
        self.kdt.add(X)
        return self
    def knn(self, X: "any", k: "int", epsilon: "float", max_dist_bound: "float", parallel: "bool"):
        if X.ndim != 2: raise ValueError("not a matrix")
        return self.kdt.knn(X, k, epsilon=abs(epsilon), max_dist_bound=abs(max_dist_bound), parallel=parallel)
    def within(self, X: "any", r: "float | int | numpy.ndarray", sort: "bool", return_dist: "bool", parallel: "bool"):
        if X.ndim != 2: raise ValueError("not a matrix")
        if isinstance(r, (int, float)):
            return self.kdt.within_with_dist(X, float(r), sort, parallel) if return_dist else self.kdt.within_idx_only(X, float(r), sort, parallel)
        if not isinstance(r, np.ndarray): raise ValueError("radius")
        rad = np.ravel(r)
        if len(rad) == 1:
            return self.kdt.within_with_dist(X, float(rad[0]), sort, parallel) if return_dist else self.kdt.within_idx_only(X, float(rad[0]), sort, parallel)
        return self.kdt.within_with_dist_vec_r(X, rad, sort, parallel) if return_dist else self.kdt.within_idx_only_vec_r(X, rad, sort, parallel)
    def within_count(self, X: "any", r: "float | int | numpy.ndarray", parallel: "bool"):
        if X.ndim != 2: raise ValueError("not a matrix")
        if isinstance(r, (int, float)): return self.kdt.within_count(X, float(r), parallel)
        if not isinstance(r, np.ndarray): raise ValueError("radius")
        rad = np.ravel(r)
        if len(rad) == 1: return self.kdt.within_count(X, float(rad[0]), parallel)
        return self.kdt.within_count_vec_r(X, rad, parallel)
