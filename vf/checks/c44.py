"""C44: a column stored in several pieces is treated like one stored in a single piece."""
from .. import builders as B, pysym as S, pytypes as T
from ..mterm import last_of
from . import c43
RULE = ("every place where a routine needs a column in one piece (cont_slice, the first chunk only) gets one: the routine has joined the pieces (rechunk, or built the column itself), or every Python builder of the routine joins "
        "them in the expression it hands over")
TECHNIQUE = "context-sensitive dataflow over MIR from each single-piece read to its source; chunk-state typing of the builders' symbolic argument terms"
TRUST = ["which Polars operations return a column in one piece; Polars hands a plugin the pieces as they are"]

READ = {"cont_slice", "downcast_get", "try_into_slice"}
MADE = {"rechunk", "from_slice", "from_vec", "from_iter_values", "from_iter", "from_iter_options", "full", "full_null", "sort", "sort_with", "unique", "finish", "as_single_ptr", "gather", "take", "take_unchecked", "reverse", "rank", "from_chunk"}
KEEP = (c43.KEEP - MADE) | {"drop_nulls", "is_null", "is_not_null", "is_nan", "is_not_nan", "is_finite", "none_to_nan", "fill_null", "fill_null_with_values", "apply_values", "apply", "apply_in_place"}

PY_ONE = {"rechunk", "sort", "sort_by", "unique", "rank", "gather", "arg_sort", "arg_unique", "top_k", "bottom_k", "sample", "shuffle", "mean", "sum", "min", "max", "var", "std", "median", "quantile", "first", "last", "len", "count", "n_unique",
          "null_count", "any", "all", "get", "item", "mode", "product"}
PY_KEEP = {"cast", "alias", "filter", "drop_nulls", "drop_nans", "fill_nan", "fill_null", "reverse", "slice", "head", "tail", "limit", "is_null", "is_not_null", "is_finite", "is_nan", "is_not_nan", "abs", "floor", "ceil", "round", "set_sorted", "to_physical",
           "gt", "ge", "lt", "le", "eq", "ne", "not_", "log", "exp", "sqrt", "clip"}
ARITH = {"add", "sub", "mul", "truediv", "pow", "floordiv", "mod"}
def pieces(t):
    """True: may be in several pieces; False: one piece; None: not known"""
    if isinstance(t, S.Star): return pieces(t.t)
    if isinstance(t, S.Sym): return True
    if isinstance(t, S.Const): return isinstance(t.v, str)
    if t.op in ("cmp", "bin", "un"):
        rs = [pieces(x) for x in t.args if isinstance(x, S.Term) and not isinstance(x, S.Const)]
        return None if None in rs else True if True in rs else False
    if t.op == "elem": return True
    c = T.call_parts(t)
    if c is None: return None
    f, a, k = c
    if isinstance(f, S.Op) and f.op == "pkg" and f.args[0].split(".")[-1] in T.COERCE and a: return pieces(a[0])
    n = T.ext_name(f)
    if n == "polars.col": return True
    if n in ("polars.lit", "polars.Series"):
        x = a[0] if a else k.get("values")
        if isinstance(x, S.Op) and x.op == "call" and n == "polars.lit": return pieces(x)
        return False if n == "polars.Series" or isinstance(x, S.Const) or isinstance(x, S.Op) else None
    if n in ("polars.len", "polars.int_range", "polars.repeat"): return False
    if n in ("polars.any_horizontal", "polars.all_horizontal"): return None
    if isinstance(f, S.Op) and f.op == "attr":
        m, r = f.args[1], f.args[0]
        if m in PY_ONE: return False
        if m in ("append", "extend"): return True
        if m in PY_KEEP: return pieces(r)
        if m in ARITH:
            rs = [pieces(r)] + [pieces(x) for x in a if isinstance(x, S.Op)]
            return None if None in rs else True if True in rs else False
    return None

def run(ctx, rep):
    N = ctx.native
    args = {}
    for u in B.uses(ctx):
        if u.symbol in N.plugins: args.setdefault(u.symbol, []).append(u)
    sites = set()
    for sym, p in sorted(N.plugins.items()):
        Q = c43.Nulls(N, p, MADE, KEEP)
        done = {}
        for s in c43.walk(N, p):
            if not s.term.callee or not s.args: continue
            l = last_of(s.term.callee)
            if l not in READ: continue
            sites.add((s.fn.canon, s.block.id))
            src = Q.of(s.args[0])
            for w in src: done.setdefault((s.fn.canon.split("::{")[0], l, str(w[1]) if w[0] == "in" else "?"), {}).setdefault(w, []).append(c43.options_at(N, p, s))
            if not src: done.setdefault((s.fn.canon.split("::{")[0], l, "made in one piece"), {})
        for (fn, l, w), src in sorted(done.items(), key=lambda x: x[0]):
            key = "%s: %s in %s, input %s" % (sym, l, fn, w)
            rep.count("routines and the columns they need in one piece")
            bad, und = c43.builders(args.get(sym), src, pieces, "may be in several pieces", "number of pieces not known")
            if bad: rep.check(key, False, "%s needs the column in one piece (%s) and %s" % (fn, l, bad[0]), function=fn)
            elif und: rep.check(key, None, und[0])
            else: rep.check(key, True, "")
    rep.counts["places that need a column in one piece"] = len(sites)
    rep.floor("places that need a column in one piece", 25)
