"""C25: null policies, in the native regression routines and in the model classes."""
RULE = ("every native routine that parses or dispatches on a null policy, and every regression entry point that carries one, is brought to normal form over its arguments on every path and must equal the reference routine of the same name in spec/ref/native under the same conditions; "
        "the model classes' fit and fit_df are interpreted for every documented policy (and a number, and an unknown text) with data unknown and must equal the reference methods in spec/ref")
TECHNIQUE = "path-sensitive abstract interpretation of MIR and of Python methods to normal forms; equality with the normal forms of a reference implementation"
TRUST = ["the reference routines state the intended computation", "library functions (drop_nulls, fill_null, filter, numpy) compute what their documentation says"]
import re
from .. import frames, refs
from ..equiv import pair, run_group

def run(ctx, rep):
    G = pair(ctx); p = G.p
    names = {c for c, f in p.b.items() if re.search(r"\bNullPolicy\b", repr(f.args) + f.ret + repr(sorted(f.locals.items()))) or "null_policy" in " ".join(s.text for b in f.blocks.values() for s in b.stmts)}
    for pl in p.ref.plugins.values():
        if any("null_policy" in k for k in (fields(pl) or ())): names.add(pl.body.canon)
    rep.count("policy_routines", len(names)); rep.floor("policy_routines", 8)
    run_group(ctx, rep, lambda c: c in names or "NullPolicy" in c, "treats nulls otherwise than its reference", 6)
    refs.run_classes(ctx, rep, "linear_models", "polars_ds.linear_models", refs.Compare(ctx.pkg, model=frames.Model(("df", "data"))), only=("fit", "fit_df"))
    rep.floor("methods", 4)

def fields(pl):
    k = getattr(pl.kwargs, "fields", None)
    if isinstance(k, dict): return list(k)
    return [getattr(x, "name", x) if not isinstance(x, (tuple, list)) else x[0] for x in k] if k else []
