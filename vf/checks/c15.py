from .. import frames, refs, pipe, pysym as S
from ..pysym import Const, Sym, Op, Star, EXT
TECHNIQUE = "path-sensitive abstract interpretation of every fit function to expression terms, then an effect check (row-local or not) over each term and a dependence check of each learned cell"
RULE = ("Every fit function of modeling/transforms.py is interpreted abstractly over all documented option values; a value read from the fitting frame is a cell term.  In every returned expression the operations applied to live columns must be "
        "row-local (no aggregate, order, window, length-changing or whole-column operation, no fill strategy, no native call that is not element-wise): such an operation would recompute on later data.  Every learned cell must be computed from a column the "
        "expression is applied to, or from the declared target; every expression that uses learned state must hold it as a cell.  Transforming is interpreted too: no path of Pipeline.transform enters a fit function.")
TRUST = ["polars methods outside the listed whole-column operations are row-local", "user-supplied expressions and functions are the user's own"]

WHOLE = set("""mean std var min max sum median quantile mode first last count len n_unique unique unique_counts value_counts rank cum_sum cum_prod cum_min cum_max cum_count cumulative_eval shift diff pct_change over sort sort_by arg_sort
arg_max arg_min arg_unique arg_true top_k top_k_by bottom_k bottom_k_by head tail slice limit sample shuffle reverse gather gather_every get filter drop_nulls drop_nans interpolate interpolate_by forward_fill backward_fill implode explode flatten
qcut hist rle rle_id peak_max peak_min is_unique is_duplicated is_first_distinct is_last_distinct entropy skew kurtosis product approx_n_unique null_count has_nulls any all search_sorted dot agg_groups append extend_constant map_batches
rolling rolling_mean rolling_sum rolling_min rolling_max rolling_std rolling_var rolling_median rolling_quantile rolling_skew rolling_map ewm_mean ewm_std ewm_var ewm_mean_by nan_max nan_min lower_bound upper_bound index_of item
rolling_mean_by rolling_sum_by rolling_min_by rolling_max_by rolling_std_by rolling_var_by rolling_median_by rolling_quantile_by where inspect arr_agg""".split()) - {"inspect", "arr_agg", "where"}
FREE = {"polars." + x for x in "mean std var min max sum median quantile first last count len n_unique approx_n_unique corr cov rolling_corr rolling_cov head tail implode cum_sum cum_count arg_where arg_sort_by".split()}
ACC = {"list", "str", "dt", "arr", "struct", "cat", "bin", "name", "meta"}   # namespaces: operations inside one row

def live(t):
    """does the term read a column of the frame it is later applied to"""
    for x in frames.spine(t):
        if isinstance(x, Op) and x.op == "call":
            f = x.args[0]
            if isinstance(f, Op) and f.op == "ext" and f.args[0] in ("polars.col", "polars.all", "polars.element", "polars.nth", "polars.exclude"): return True
            if isinstance(f, Op) and f.op == "ext" and f.args[0].startswith("polars.selectors."): return True
            if isinstance(f, Op) and f.op == "pkg": return True
    return False

def bad(e):
    """operations of e that look beyond the row"""
    out = []
    for x in frames.spine(e):
        m = frames.meth(x)
        if m:
            r, n, a, kw = m
            if isinstance(r, Op) and r.op == "attr" and r.args[1] in ACC: continue
            if not live(r): continue
            if n in WHOLE: out.append("." + n)
            elif n == "fill_null" and any(k in ("strategy", "limit") and v != Const(None) for k, v in kw): out.append(".fill_null(strategy)")
            elif n == "fill_null" and len(a) > 1: out.append(".fill_null(strategy)")
        elif isinstance(x, Op) and x.op == "call" and isinstance(x.args[0], Op) and x.args[0].op == "ext":
            f = x.args[0].args[0]
            if f in FREE: out.append(f)
            elif f == "polars.plugins.register_plugin_function":
                k = dict(x.args[2])
                if k.get("is_elementwise") != Const(True): out.append("native " + S.show(k.get("function_name", Const("?")))[:40])
    return out

def cols_of(t):
    """names of the columns a term reads, outside cells"""
    out = set()
    for x in frames.spine(t):
        if isinstance(x, Op) and x.op == "call" and x.args[0] == EXT("polars.col"):
            for a in x.args[1]: out |= set(a.args) if isinstance(a, Op) and a.op in ("list", "tuple") else {a}
        elif isinstance(x, Op) and x.op == "call" and isinstance(x.args[0], Op) and x.args[0].op == "pkg" and x.args[1]:
            out |= {x.args[1][0]}
    return {c.t if isinstance(c, Star) else c for c in out}

def cells(t, seen=None):
    out = []
    for x in S.walk(t):
        if isinstance(x, Op) and x.op == "cell": out.append(x)
    return out

def inner(c): return {x for x in cols_of(c.args[1])}

def run(ctx, rep):
    m = refs.load("transforms")
    C = refs.Compare(ctx.pkg, model=frames.Model(("df", "data")))
    from .. import algebra
    for fn, node in m.functions().items():
        if fn.startswith("_"): continue
        impl = refs.find(ctx.pkg, "polars_ds.modeling.transforms", fn)
        if impl is None: rep.undecide(fn, "no such fit function"); continue
        rep.count("fit functions")
        for params, typ in refs.combos(node):
            Ps, missing = C.paths(C.I, impl, params, typ)
            for p in Ps:
                if p.outcome == "unknown": rep.undecide(fn, "a path is not interpreted"); continue
                if p.outcome != "return": continue
                rep.count("returning paths")
                v = p.value
                es = list(v.args) if isinstance(v, Op) and v.op in ("list", "tuple") else [v]
                target = params.get("target")
                for e in es:
                    e = e.t if isinstance(e, Star) else e
                    if isinstance(e, Op) and e.op == "filtered": e = e.args[0]
                    rep.count("expressions")
                    key = "%s:%s" % (fn, refs.short_params(params, typ))
                    b = sorted(set(bad(e)))
                    rep.check(key + ":row-local", not b, "fitting with %s(%s) gives an expression that applies %s to the data it is later applied to: %s" % (fn, refs.describe(params, typ)[:300], ", ".join(b), S.show(e)[:300]))
                    mine = cols_of(e)
                    for c in cells(e):
                        rep.count("learned cells")
                        d = inner(c)
                        if not d: continue
                        # a sum over several columns reads every column of a list
                        ok = bool(d & mine) or any(frames.spine and S.deps(x) & {"target"} for x in d)
                        rep.check(key + ":own statistic", ok, "fitting with %s(%s) applies to column(s) %s a value learned from %s" % (fn, refs.describe(params, typ)[:200], ", ".join(sorted(S.show(x) for x in mine)), ", ".join(sorted(S.show(x) for x in d))))
    K = pipe.Classes(ctx.pkg)
    it = S.Interp(ctx.pkg, max_paths=400)
    fits = {"polars_ds.modeling.transforms." + n for n in ctx.pkg.mods["polars_ds.modeling.transforms"].functions()}
    for n in ("transform",):
        meth = K.method(K.Pipeline, n)
        if meth is None: rep.undecide("Pipeline." + n, "no such method"); continue
        for p in it.run(meth, selfobj=K.pipeline([K.step(i, c) for i, c in enumerate(K.contexts())])):
            rep.count("transforming paths")
            hit = sorted(x for x in p.inlined if x in fits or x.endswith("FitStep.fit"))
            rep.check("Pipeline.%s: no fitting" % n, not hit, "Pipeline.%s fits again: it calls %s" % (n, ", ".join(hit)))
    rep.floor("fit functions", 13); rep.floor("expressions", 100); rep.floor("learned cells", 80); rep.floor("transforming paths", 1)
