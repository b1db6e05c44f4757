from .. import frames, refs
TECHNIQUE = "path-sensitive abstract interpretation of every method of the inspection and partition helpers (frame model: values read from a collected frame are cells of it), normalised and compared with a reference class"
RULE = ("Each public non-plotting method of DIA and PartitionHelper is interpreted abstractly for every combination of documented option values with the frame unknown; each returning path's observation (result and attributes set) must equal that of the "
        "reference class in spec/ref under compatible conditions, every case of the reference must be reached, and inputs the reference refuses must be tested and refused.")
TRUST = ["the reference classes in spec/ref state the documentation", "polars computes what its documentation says", "numeric_profile, the plotting methods, warnings and PartitionHelper.apply are not compared"]
def run(ctx, rep):
    refs.run_classes(ctx, rep, "diagnosis", "polars_ds.eda.diagnosis", refs.Compare(ctx.pkg, model=frames.Model(("self._frame",))))
    refs.run_classes(ctx, rep, "partition", "polars_ds.partition.partition", refs.Compare(ctx.pkg, model=frames.Model(("df", "data"))))
    rep.floor("classes", 2); rep.floor("methods", 18); rep.floor("option combinations", 44)
