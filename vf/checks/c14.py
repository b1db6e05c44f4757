"""C14: every public parameter has an effect."""
from __future__ import annotations
import ast
from .. import pysym as S

RULE = ("every public function and method of the package is executed symbolically; on every returning path each parameter must appear in the returned value, in a branch or check passed on the way, in a call that is made or in the state that is set; "
        "pairs for which the documentation says otherwise are listed with the other parameters that must decide the case")
TECHNIQUE = "path-sensitive symbolic execution of Python with dependence of results, checks and effects on parameters"
TRUST = ["a library call depends on all arguments it is given"]

# (function, parameter): parameters on which a path has to branch for the parameter to be unused there; () - unused throughout, as documented
UNUSED = {
 ("DIA.numeric_profile", "n_bins"): ("histogram",),
 ("plot_feature_distr", "df"): ("feature",),
 ("plot_prob_calibration", "name"): ("score",), ("plot_prob_calibration", "names"): ("score",), ("plot_prob_calibration", "scores"): ("score",), ("plot_prob_calibration", "n_bins"): ("name",),
 ("plot_roc_auc", "name"): ("pred",), ("plot_roc_auc", "names"): ("pred",), ("plot_roc_auc", "preds"): ("pred",), ("plot_roc_auc", "n_decimals"): ("show_auc",),
 ("warn_len_compare", "item2"): ("item1",),
 ("lin_reg", "weights"): ("target",), ("lin_reg", "l1_reg"): ("target",), ("lin_reg", "tol"): ("target",),
 ("query_lstsq", "weights"): ("target",), ("query_lstsq", "l1_reg"): ("target",), ("query_lstsq", "tol"): ("target",),
 ("ttest_ind_from_stats", "cnt"): ("equal_var",),
 ("jitter", "seed"): ("std",),
 ("filter_by_hamming", "pad"): (),            # "Note this does not pad the strings"
 ("extract_numbers", "join_by"): ("dtype",),
 ("query_auto_corr", "ddof"): ("normalize",),
 ("PipelineStep.apply_df", "df"): ("self",),
 ("Blueprint.fit", "X"): (), ("Blueprint.fit", "y"): (),   # accepted for scikit-learn's sake only
 ("PartitionHelper.__init__", "separator"): ("by",), ("PartitionHelper.__init__", "whole_df_name"): ("by",), ("PartitionHelper.apply", "func"): ("self",),
 ("sample", "seed"): ("value",), ("downsample", "seed"): ("conditions",),
}

def deps(p):
    d = S.deps(p.value)
    for c, _ in p.conds: d |= S.deps(c)
    for c in p.calls: d |= S.deps(c)
    if p.selfobj is not None:
        for v in p.selfobj.attrs.values(): d |= S.deps(S.freeze(v))
    for t in list(p.dom) + list(p.typ): d |= S.deps(t)
    return d

def branches(p):
    d = set()
    for c, _ in p.conds: d |= S.deps(c)
    for t in list(p.dom) + list(p.typ): d |= S.deps(t)
    return d

def run(ctx, rep):
    pkg = ctx.pkg
    for mn, m in sorted(pkg.mods.items()):
        if not hasattr(m, "tree"): continue
        items = [(n, f, None) for n, f in m.functions().items()]
        for c in m.tree.body:
            if isinstance(c, ast.ClassDef): items += [(c.name + "." + x.name, x, c) for x in c.body if isinstance(x, (ast.FunctionDef,))]
        for n, f, c in items:
            last = n.split(".")[-1]
            if last.startswith("_") and last != "__init__" or c is not None and c.name.startswith("_"): continue
            a = f.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg not in ("self", "cls")] + ([a.vararg.arg] if a.vararg else [])
            key = "%s.%s" % (mn.replace("polars_ds.", ""), n)
            if abstract(f): continue
            if a.kwarg:
                used = any(isinstance(x, ast.Name) and x.id == a.kwarg.arg for x in ast.walk(ast.Module(f.body, [])))
                rep.check("%s(**%s)" % (key, a.kwarg.arg), used, "%s accepts **%s and drops it" % (key, a.kwarg.arg))
            if not names: continue
            I = S.Interp(pkg, max_paths=400)
            try:
                if c is not None:
                    cr = pkg.lookup(m, c.name)
                    ps = I.run(S.Closure(f, m, cls=cr), selfobj=S.Obj(cr, {}))
                else: ps = I.run(S.Closure(f, m))
            except Exception as e:
                rep.undecide(key, "not executed: %s" % type(e).__name__); continue
            ret = [p for p in ps if p.outcome == "return"]
            rep.count("functions"); rep.count("paths", len(ret))
            if I.truncated: rep.undecide(key, "too many paths"); continue
            if any(p.outcome == "unknown" for p in ps): rep.undecide(key, "not all paths followed"); continue
            ds = [(deps(p), p) for p in ret]
            for q in names:
                rep.count("parameters")
                dead = [p for d, p in ds if q not in d]
                allow = UNUSED.get((n, q))
                if dead and allow is not None:
                    if not allow or allow == ("self",): dead = []
                    else: dead = [p for p in dead if not set(allow) <= branches(p)]
                how = " and ".join("%s is %s" % (S.show(t)[:60], b) for t, b in dead[0].conds)[:300] if dead else ""
                rep.check("%s(%s)" % (key, q), not dead, "%s: %s has no effect%s" % (key, q, " when " + how if how else ""))
    rep.floor("functions", 150); rep.floor("parameters", 450)

def abstract(f):
    b = [x for x in f.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return not b or all(isinstance(x, (ast.Pass, ast.Raise)) for x in b)
