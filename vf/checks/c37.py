from .. import frames, refs
TECHNIQUE = "path-sensitive abstract interpretation of every method of the model classes (state, calls on the native object and results as terms), normalised algebraically and compared with a reference class"
RULE = ("Each public method of KDTree, LR, ElasticNet and OnlineLR is interpreted abstractly for every combination of documented option values, with arrays, frames and the native object unknown.  Each returning path's observation (result, attributes "
        "set on the object, calls made on the native object in order, printing) must equal that of the reference class in spec/ref under compatible conditions, every case of the reference must be reached, and inputs the reference refuses must be tested and refused.")
TRUST = ["the reference classes in spec/ref state the documentation", "numpy and polars functions compute what their documentation says", "the native classes are compared elsewhere (C18-C21) or not at all"]
def run(ctx, rep):
    for name, where in (("spatial", "polars_ds.spatial"), ("linear_models", "polars_ds.linear_models")):
        refs.run_classes(ctx, rep, name, where, refs.Compare(ctx.pkg, model=frames.Model(("df", "data"))))
    rep.floor("classes", 4); rep.floor("methods", 34); rep.floor("option combinations", 110)
