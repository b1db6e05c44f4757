"""Reference definitions of exprs/expr_iter.py."""
import polars as pl
from polars_ds._utils import pl_plugin, str_to_expr as E

def product(s1: "str | pl.Expr", s2: "str | pl.Expr"):
    return pl_plugin(symbol="pl_product", args=[E(s1).drop_nulls(), E(s2).drop_nulls()], changes_length=True)
def combinations(source: "str | pl.Expr", k: "int", unique: "bool"):
    s = E(source)
    if unique: s = s.unique()
    s = s.drop_nulls()
    return pl_plugin(symbol="pl_combinations", args=[s.sort() if unique else s], changes_length=True, kwargs={"k": k})
