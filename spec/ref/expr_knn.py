"""Reference definitions of exprs/expr_knn.py."""
import polars as pl
from polars_ds._utils import pl_plugin, str_to_expr as E

def _present(features): return [E(f).is_not_null() for f in features]

def query_dist_from_kth_nb(*features: "str | pl.Expr", k: "int", dist: "{'l1','l2','sql2','inf'}", parallel: "bool", epsilon: "float", max_bound: "float"):
    return pl_plugin(symbol="pl_dist_from_kth_nb", args=[E(f) for f in features],
                     kwargs={"k": k, "metric": dist, "parallel": parallel, "skip_eval": False, "max_bound": max_bound, "epsilon": epsilon})

def query_knn_ptwise(*features: "str | pl.Expr", index: "str | pl.Expr", k: "{3}", dist: "{'l1','l2','sql2','inf'}", parallel: "bool", return_dist: "bool",
                     eval_mask: "str | pl.Expr | None", data_mask: "str | pl.Expr | None", epsilon: "float", max_bound: "float"):
    keep = _present(features)
    if data_mask is not None: keep = [E(data_mask)] + keep
    cols = [E(index).cast(pl.UInt32), pl.all_horizontal(keep)]
    if eval_mask is not None: cols.append(E(eval_mask))
    for f in features: cols.append(E(f))
    return pl_plugin(symbol="pl_knn_ptwise_w_dist" if return_dist else "pl_knn_ptwise", args=cols,
                     kwargs={"k": k, "metric": dist, "parallel": parallel, "skip_eval": eval_mask is not None, "max_bound": max_bound, "epsilon": epsilon})

def query_knn_freq_cnt(*features: "str | pl.Expr", index: "str | pl.Expr", k: "{3}", dist: "{'l1','l2','sql2','inf'}", parallel: "bool",
                       eval_mask: "str | pl.Expr | None", data_mask: "str | pl.Expr | None", epsilon: "float", max_bound: "float"):
    nb = query_knn_ptwise(*features, index=index, k=k, dist=dist, parallel=parallel, return_dist=False, eval_mask=eval_mask, data_mask=data_mask, epsilon=epsilon, max_bound=max_bound)
    return nb.explode().drop_nulls().value_counts(sort=True, parallel=parallel)

def query_knn_avg(*features: "str | pl.Expr", target: "str | pl.Expr", k: "{3}", dist: "{'l1','l2','sql2','inf'}", weighted: "bool", parallel: "bool", min_bound: "float", max_bound: "float"):
    cols = [E(target).cast(pl.Float64), ~pl.any_horizontal([E(f).is_null() for f in features])] + [E(f) for f in features]
    return pl_plugin(symbol="pl_knn_avg", args=cols, kwargs={"k": k, "metric": dist, "weighted": weighted, "parallel": parallel, "min_bound": min_bound, "max_bound": max_bound})

def _dist_from(features, pt, dist, rank):
    from polars_ds import haversine
    d = [E(f) - pl.lit(x, dtype=pl.Float64) for f, x in zip(features, pt)]
    if dist == "l1": return pl.sum_horizontal([x.abs() for x in d])
    if dist == "inf": return pl.max_horizontal([x.abs() for x in d])
    if dist == "sql2" or (dist == "l2" and rank): return pl.sum_horizontal([x ** 2 for x in d])
    if dist == "l2": return pl.sum_horizontal([x ** 2 for x in d]).sqrt()
    if dist == "cosine":
        dot = pl.sum_horizontal([x * E(f) for f, x in zip(features, pt)])
        return 1 - dot / ((pl.sum_horizontal([E(f) * E(f) for f in features])) * sum([x * x for x in pt])).sqrt()
    return haversine(E(features[0]), E(features[1]), pl.lit(pt[0], dtype=pl.Float64), pl.lit(pt[1], dtype=pl.Float64))

def within_dist_from(*features: "str | pl.Expr", pt: "list[float]", r: "float", dist: "{'l1','l2','sql2','inf','cosine','h','haversine'}"):
    if len(features) != 2: raise ValueError("dimension")
    return _dist_from(features, pt, dist, False) <= r
def is_knn_from(*features: "str | pl.Expr", pt: "list[float]", k: "int", dist: "{'l1','l2','sql2','inf','cosine','h','haversine'}"):
    # the ordering by squared distance is the ordering by distance
    if len(features) != 2: raise ValueError("dimension")
    d = _dist_from(features, pt, dist, True)
    return d <= d.bottom_k(k=k).max()

def query_radius_ptwise(*features: "str | pl.Expr", index: "str | pl.Expr", r: "{0.5}", dist: "{'l1','l2','sql2','inf'}", sort: "bool", parallel: "bool"):
    return pl_plugin(symbol="pl_query_radius_ptwise", args=[E(index).cast(pl.UInt32)] + [E(f) for f in features], kwargs={"r": r, "metric": dist, "parallel": parallel, "sort": sort})
def query_radius_freq_cnt(*features: "str | pl.Expr", index: "str | pl.Expr", r: "{0.5}", dist: "{'l1','l2','sql2','inf'}", parallel: "bool"):
    nb = query_radius_ptwise(*features, index=index, r=r, dist=dist, sort=False, parallel=parallel)
    return nb.explode().drop_nulls().value_counts(sort=True, parallel=parallel)
def query_nb_cnt(*features: "str | pl.Expr", r: "float | int | str | pl.Expr | list", dist: "{'l1','l2','sql2','inf'}", parallel: "bool"):
    if isinstance(r, (float, int)): rad = pl.lit(pl.Series(values=[r], dtype=pl.Float64))
    elif isinstance(r, (str, pl.Expr)): rad = E(r)
    else: rad = pl.lit(pl.Series(values=r, dtype=pl.Float64))
    return pl_plugin(symbol="pl_nb_cnt", args=[rad] + [E(f) for f in features], kwargs={"k": 0, "metric": dist, "parallel": parallel, "skip_eval": False})
