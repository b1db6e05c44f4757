from .. import formula, frames, refs
TECHNIQUE = "path-sensitive abstract interpretation of each fit function (frame model: a value read from the collected frame is a cell of it) to algebraic normal form, compared with a reference definition"
RULE = ("Each function of modeling/transforms.py is interpreted abstractly for every combination of its documented option values, with the frame, columns and free parameters unknown; a value read from the fitting frame, however it is read, is "
        "the term cell(frame, expression, row).  Every returning path must give the expressions (the same columns, in order, under the same names, with the same learned cells) of the reference definition in spec/ref/transforms.py under compatible conditions, "
        "and every case of the reference must be reached.")
TRUST = ["the reference definitions in spec/ref state the documentation", "polars methods and native routines compute what their documentation says"]
def run(ctx, rep):
    formula.decide(ctx, rep, {'transforms': 'polars_ds.modeling.transforms'}, 13, 60, cmp=refs.Compare(ctx.pkg, model=frames.Model(("df", "data"))))
