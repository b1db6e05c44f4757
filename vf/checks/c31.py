from .. import formula
TECHNIQUE = "path-sensitive abstract interpretation of each builder to algebraic normal form, compared with a reference definition"
RULE = ("Each time-series builder of exprs/ts_features.py is interpreted abstractly for every combination of its documented option values, with columns and free parameters unknown; every returning path must have the same normal form "
        "(quotients of polynomials over polars and native calls, with aliases, default arguments and argument order removed) as the reference definition in spec/ref under compatible conditions, and every case of the reference must be reached.")
TRUST = ["the reference definitions in spec/ref state the documentation", "polars methods and native routines compute what their documentation says"]
def run(ctx, rep):
    formula.decide(ctx, rep, {'ts_features': 'polars_ds.exprs.ts_features'}, 23, 98)
