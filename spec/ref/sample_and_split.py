"""Reference definitions of sample_and_split/sample_and_split.py."""
import math, random
import polars as pl
from itertools import combinations, islice

def _first(value, seed):
    """a random subset: the rows whose shuffled position is below the target"""
    pos = pl.int_range(0, pl.len(), dtype=pl.UInt32).shuffle(seed)
    if isinstance(value, float):
        if value >= 1.0 or value <= 0.0: raise ValueError("rate")
        return pos < (pl.len() * value).cast(pl.UInt32)
    if value <= 0: raise ValueError("count")
    return pos < pl.lit(value, dtype=pl.UInt32)

def sample(df: "pl.DataFrame | pl.LazyFrame", value: "float | int", seed: "int | None"):
    return df.lazy().filter(_first(value, seed)).collect()

def volume_neutral(df: "pl.DataFrame | pl.LazyFrame", by: "pl.Expr", control: "pl.Expr | None | list[pl.Expr]", target_volume: "int | None", seed: "int | None"):
    least = by.value_counts().struct.field("count").min()
    target = pl.min_horizontal(least, target_volume) if isinstance(target_volume, int) else least
    if control is None: keys = []
    elif isinstance(control, list): keys = control
    else: keys = [control]
    if len(keys) > 0: target = target.over(keys)
    return df.lazy().filter(pl.int_range(0, pl.len()).shuffle(seed).over(keys + [by]) < target).collect()

def downsample(df: "pl.DataFrame | pl.LazyFrame", *conditions: "tuple[pl.Expr,float] | tuple[pl.Expr,int]", seed: "int | None"):
    keep = pl.lit(True)
    for c, r in conditions: keep = keep & (_first(r, seed).over(c) | ~c)
    return df.lazy().filter(keep).collect()

def split_by_ratio(df: "pl.DataFrame | pl.LazyFrame", split_ratio: "float | list[float]", seed: "int | None"):
    drop = pl.col("*").exclude(["__id", "__tt"])
    if isinstance(split_ratio, float):
        if split_ratio <= 0.0 or split_ratio >= 1: raise ValueError("ratio")
        lab = df.lazy().with_row_index(name="__id").collect().with_columns((pl.col("__id").shuffle(seed=seed) < (pl.len() * split_ratio).cast(pl.Int64)).alias("__tt"))
        parts = lab.partition_by("__tt", as_dict=True)
        return [parts[(True,)].select(drop), parts[(False,)].select(drop)]
    if not math.isclose(sum(split_ratio), 1.0): raise ValueError("sum")
    d = df.with_row_index(name="__id").with_columns(pl.col("__id").shuffle(seed=seed).alias("__tt")).sort("__tt").lazy().collect()
    # consecutive slices of the shuffled rows; the last takes the remainder
    n = len(d)
    k = int(n * split_ratio[0])
    return [d.slice(0, length=k).select(drop), d.slice(k, length=n - k).select(drop)]

def random_cols(all_columns: "list[str]", k: "{1}", keep: "None", seed: "int | None"):
    rng = random if seed is None else random.Random(seed)
    if len(all_columns) - len([]) < k: raise ValueError("too few")
    n = rng.randrange(0, math.comb(len(all_columns), k))
    return list(next(islice(combinations(all_columns, k), n, None), None))
