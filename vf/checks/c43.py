"""C43: what is stored under a null is never read as a value."""
from .. import builders as B, pysym as S, pytypes as T, native as NV, cfg, mir
from ..mterm import last_of, show
RULE = ("every place where a routine reads the stored values of a column without their validity (into_no_null_iter, values_iter, PrimitiveArray::values, value_unchecked ...) gets a column without nulls: one produced by an "
        "operation that leaves none (drop_nulls, is_not_null, ...), one whose null count was tested on every path to the read, or an input for which every Python builder of the routine removes the nulls")
TECHNIQUE = "context-sensitive dataflow over MIR from each unmasked read to its source, dominating null-count tests, null-freeness of the builders' symbolic argument terms"
TRUST = ["the null behaviour of the Polars operations named in the rule"]

# readers that hand out stored values whether valid or not
READ = {"into_no_null_iter", "values_iter", "values", "value_unchecked", "values_as_slice", "data_views", "non_null_values_iter", "par_iter_no_null"}
OWNER = ("ChunkedArray", "PrimitiveArray", "BinaryViewArray", "Utf8ViewArray", "Utf8Array", "BooleanArray", "ListArray", "NumTakeRandom", "StaticArray")
# the result holds no null, whatever goes in
MADE = {"drop_nulls", "is_null", "is_not_null", "is_nan", "is_not_nan", "is_finite", "is_infinite", "none_to_nan", "fill_null", "fill_null_with_values", "from_slice", "from_vec", "from_iter_values", "full",
        "into_no_null_iter", "from_values", "arg_sort", "arg_unique"}
# the result holds a null only if the receiver does
KEEP = {"cast", "clone", "f64", "f32", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "bool", "str", "list", "struct_", "unpack", "not", "neg", "filter", "sort", "sort_with", "unique", "slice", "head", "tail",
        "reverse", "rechunk", "into_series", "downcast_iter", "downcast_get", "next", "chunks", "skip", "take", "chain", "abs", "as_materialized_series", "take_materialized_series", "into_column", "rank", "iter", "cast_with_options", "strict_cast",
        "to_physical_repr", "physical", "borrow", "as_ref", "deref", "unwrap_or_default", "downcast_as_array", "as_any", "downcast_ref", "first", "last", "with_name", "shift_and_fill", "unwrap_or", "unwrap_or_clone", "index"}
BOTH = {"bitand", "bitor", "bitxor", "append", "extend", "and", "or"}

class Nulls:
    """where a term may get its nulls from: set of ('in', k), ('?', why); empty when it can have none"""
    def __init__(self, N, plugin, made=None, keep=None, both=None):
        self.N, self.root = N, ("arg", plugin.body.canon, 1)
        self.made, self.keep, self.both = made or MADE, keep or KEEP, both or BOTH
    def of(self, t, d=30, free=()):
        if d <= 0: return {("?", "deep")}
        if t in free: return set()
        p = NV._input_pos(t, self.root)
        if p is not None: return {("in", p[1] if p[0] == "pos" else None)}
        k = t[0]
        if k == "phi": return set().union(*[self.of(x, d - 1, free) for x in t[1] if x[0] != "rec"])
        if k == "rec" or k == "const": return set()
        if k == "agg" and "PolarsError" in str(t[1][1]): return set()          # the payload of an error
        if k in ("wrap", "slice", "variant"): return self.of(t[1], d - 1, free)
        if k == "cast": return self.of(t[2], d - 1, free)
        if k == "un": return self.of(t[2], d - 1, free)
        if k == "index": return self.of(t[1], d - 1, free)
        if k == "field":
            if t[1][0] == "agg" and "PolarsError" in str(t[1][1][1]): return set()
            if t[1][0] == "call": return self.call(t[1], d, free, t[2])
            if t[1][0] == "phi": return set().union(*[self.of(("field", x, t[2]), d - 1, free) for x in t[1][1]])
            if t[1][0] in ("agg",) and t[2] < len(t[1][2]): return self.of(t[1][2][t[2]], d - 1, free)
            return self.of(t[1], d - 1, free) if t[1][0] in ("variant", "wrap", "index") else {("?", show(t, 3))}
        if k == "call": return self.call(t, d, free)
        return {("?", show(t, 3))}
    def call(self, t, d, free, fld=None):
        if t[1] == "<indirect>": return {("?", "indirect call")}
        l = last_of(t[1])
        for g in self.N.prog.resolve(t[1]):
            ds = self.N.w.view(g).local_term(0, 40, ())
            bind = {(g.canon, i): a for (i, _), a in zip(g.args, t[2])}
            r = NV.substitute(ds, bind)
            out = set()
            for x in (r[1] if r[0] == "phi" else (r,)):
                if x[0] == "agg" and x[1][0] == "variant" and last_of(x[1][1]) in ("Err", "Break", "None"): continue
                if x[0] == "call" and last_of(x[1]) in ("from_residual",): continue
                out |= self.pick(x, fld, d - 1, free)
            return out
        if l in self.made: return set()
        if l == "fold" and len(t[2]) == 3 and t[2][2][0] == "closure":
            f = self.N.w.closure_fn(t[2][2][1])
            if f is None: return {("?", "fold")}
            body = self.N.w.view(f).local_term(0, 40, ())
            return self.of(t[2][1], d - 1, free) | self.of(body, d - 1, free + (("arg", f.canon, f.args[1][0]),))
        if l in self.both: return set().union(*[self.of(x, d - 1, free) for x in t[2]])
        if l in self.keep and t[2]: return self.pick(t[2][0], fld if fld else None, d - 1, free)
        return {("?", l)}
    def pick(self, x, fld, d, free):
        if fld is None: return self.of(x, d, free)
        if x[0] == "wrap": return self.pick(x[1], fld, d, free)
        if x[0] == "agg" and x[1][0] in ("tuple", "struct") and fld < len(x[2]): return self.of(x[2][fld], d, free)
        return self.of(("field", x, fld), d, free)

def root(t, d=20):
    """the column a term is a view of"""
    while d:
        d -= 1
        if t[0] in ("wrap", "slice", "variant", "index"): t = t[1]
        elif t[0] == "cast": t = t[2]
        elif t[0] == "phi" and len({root(x, d) for x in t[1] if x[0] != "rec"}) == 1: t = next(x for x in t[1] if x[0] != "rec")
        elif t[0] == "field" and t[1][0] in ("call", "variant", "wrap"): t = t[1]
        elif t[0] == "call" and t[2] and last_of(t[1]) in KEEP: t = t[2][0]
        else: return t
    return t

def tested(N, f, bid, recv):
    """a test on every path to the block says that the column has no null"""
    v = N.w.view(f)
    r = root(recv)
    for s, t in cfg.of(f).guards(bid):
        tm = f.blocks[s].term
        if tm.op is None: continue
        d, neg = v.term(tm.op), False
        while d[0] == "un": d, neg = d[2], not neg
        vals = cfg.edge_value(f, s, t)
        true = (vals != [0]) != neg
        if d[0] == "bin" and d[1] in ("Eq", "Ne", "Gt"):
            a, b = d[2], d[3]
            if b[0] == "const" and b[1].startswith("0"):
                if d[1] != "Eq": true = not true
                d = a
            else: continue
            if d[0] == "call" and last_of(d[1]) == "null_count" and root(d[2][0]) == r and true: return True
        elif d[0] == "call" and last_of(d[1]) == "has_nulls" and d[2] and root(d[2][0]) == r and not true: return True
        elif d[0] == "call" and last_of(d[1]) == "null_count" and root(d[2][0]) == r and 0 in vals: return True
    return False

# ---- the Python side: may the expression have nulls?
PY_MADE = {"drop_nulls", "is_null", "is_not_null", "len", "count", "null_count", "n_unique", "arg_sort", "arg_unique", "is_in_missing", "eq_missing", "ne_missing"}
PY_KEEP = {"cast", "alias", "rechunk", "sort", "unique", "reverse", "slice", "head", "tail", "rank", "abs", "set_sorted", "gather", "sort_by", "sample", "shuffle", "limit", "fill_nan", "drop_nans", "to_physical", "floor", "ceil", "round",
           "explode", "flatten", "is_finite", "is_nan", "is_not_nan", "is_infinite", "gt", "ge", "lt", "le", "eq", "ne", "not_", "add", "sub", "mul", "append"}
def may_null(t):
    """True: the caller's nulls come through; False: none; None: not known"""
    if isinstance(t, S.Star): return may_null(t.t)
    if isinstance(t, S.Sym): return True
    if isinstance(t, S.Const): return t.v is None or isinstance(t.v, str)
    if t.op in ("cmp", "bin", "un"):
        rs = [may_null(x) for x in t.args if isinstance(x, S.Term)]
        return True if True in rs else None if None in rs else False
    if t.op in ("elem",): return True
    c = T.call_parts(t)
    if c is None: return None
    f, a, k = c
    if isinstance(f, S.Op) and f.op == "pkg" and f.args[0].split(".")[-1] in T.COERCE and a: return may_null(a[0])
    n = T.ext_name(f)
    if n == "polars.col": return True
    if n in ("polars.lit", "polars.repeat"): return isinstance(a[0], S.Const) and a[0].v is None if a and isinstance(a[0], S.Const) else may_null(a[0]) if a and isinstance(a[0], S.Op) else None
    if n in ("polars.len", "polars.int_range", "polars.arange"): return False
    if isinstance(f, S.Op) and f.op == "attr":
        m, r = f.args[1], f.args[0]
        if m in PY_MADE: return False
        if m == "fill_null": return False if a and isinstance(a[0], S.Const) and a[0].v is not None else None
        if m == "filter":
            if any(excludes(x, r) for x in a): return False
            return may_null(r)
        if m in PY_KEEP:
            if m == "cast" and "strict" in k: return None if may_null(r) is False else may_null(r)
            rs = [may_null(r)] + [may_null(x) for x in a if m in ("append", "add", "sub", "mul", "gt", "ge", "lt", "le", "eq", "ne") and isinstance(x, S.Op)]
            return True if True in rs else None if None in rs else False
    return None

def excludes(p, x):
    """the filter keeps only rows where x is not null"""
    if isinstance(p, S.Op) and p.op == "bin" and p.args[0] == "&": return any(excludes(y, x) for y in p.args[1:])
    if isinstance(p, S.Op) and p.op == "cmp": return any(y == x for y in p.args)
    c = T.call_parts(p)
    if c is None: return False
    f, a, k = c
    return isinstance(f, S.Op) and f.op == "attr" and f.args[1] in ("is_not_null", "is_finite", "is_nan", "is_not_nan", "is_infinite", "gt", "ge", "lt", "le", "eq", "ne", "is_between") and f.args[0] == x

def walk(N, p):
    """the calls of a routine, with routines chosen by a function value followed as well"""
    seen = set()
    for s in N.walk(p.body):
        yield s
        if s.term.callee is None:
            t = N.w.view(s.fn).term(s.term.fop)
            for x in (t[1] if t[0] == "phi" else (t,)):
                if x[0] != "fn": continue
                for g in N.prog.resolve(x[1]):
                    key = (g.canon, s.args)
                    if key in seen: continue
                    seen.add(key)
                    yield from N.walk(g, {(g.canon, i): a for (i, _), a in zip(g.args, s.args)}, 6, s.stack)

def options_at(N, p, s):
    """{option: value} the routine has established on every path to the place"""
    out = {}
    if p.kwargs is None or s.fn.name != p.body.name: return out
    v = N.w.view(s.fn)
    for a, b in cfg.of(s.fn).guards(s.block.id):
        tm = s.fn.blocks[a].term
        d = v.term(tm.op) if tm.op is not None else ()
        neg = False
        while d and d[0] == "un" and d[1] == "Not": d, neg = d[2], not neg
        if d and d[0] == "field" and d[1] == ("arg", p.body.canon, p.kw_arg):
            f = next((f for f in p.kwargs.fields if f.index == d[2]), None)
            if f is not None and f.ty == "bool": out[f.name] = (cfg.edge_value(s.fn, a, b) != [0]) != neg
    return out

def excluded(u, opts):
    """the builder sets an option the place needs to be otherwise"""
    if not opts: return False
    kw = {k.v: v for k, v in (u.native.kwargs or ()) if isinstance(k, S.Const)}
    return any(o in kw and truth(u.path, kw[o]) == (not val) for o, val in opts.items())

_SAME = {"is": "==", "is not": "!="}
def truth(path, t):
    """the truth value of a term on a path, or None"""
    if isinstance(t, S.Const): return bool(t.v)
    for c, v in path.conds:
        if c == t: return v
        if isinstance(t, S.Op) and t.op == "cmp" and isinstance(c, S.Op) and c.op == "cmp" and tuple(c.args[1:]) == tuple(t.args[1:]):
            a, b = _SAME.get(c.args[0], c.args[0]), _SAME.get(t.args[0], t.args[0])
            if a == b: return v
            if {a, b} == {"==", "!="}: return not v
    return None

def builders(us, src, question, yes, unknown):
    """(violations, undecided) for inputs handed over by the package's builders; question(term) -> True when the bad case is possible.
    src: {source: [options established where it is needed]}"""
    bad, und = [], []
    for kind, w in sorted(src, key=str):
        if kind == "?": und.append("source not followed (%s)" % w); continue
        for u in us or ():                              # none: no builder of the package runs this routine
            if all(excluded(u, o) for o in src[(kind, w)]): continue
            al = list(u.native.args)
            star = next((i for i, a in enumerate(al) if isinstance(a, S.Star)), None)
            a = None if w is None else al[star] if star is not None and w >= star else al[w] if w < len(al) else None
            r = None if a is None else question(a)
            if r is True: bad.append("input %s (%s of %s) %s" % (w, S.show(a)[:60], u.fn, yes))
            elif r is None: und.append("input %s of %s: %s" % (w, u.fn, unknown))
    return bad, und

def run(ctx, rep):
    N = ctx.native
    args = {}
    for u in B.uses(ctx):
        if u.symbol in N.plugins: args.setdefault(u.symbol, []).append(u)
    reads = set()
    for sym, p in sorted(N.plugins.items()):
        Q = Nulls(N, p)
        done = {}
        for s in walk(N, p):
            if not s.term.callee or not s.args: continue
            l = last_of(s.term.callee)
            if l not in READ or not any(o in s.term.callee for o in OWNER): continue
            reads.add((s.fn.canon, s.block.id))
            own = N.w.view(s.fn).term(s.term.args[0])
            if tested(N, s.fn, s.block.id, own): src = set()
            else: src = Q.of(s.args[0])
            at = done.setdefault((s.fn.canon.split("::{")[0], l), {})
            for w in src: at.setdefault(w, []).append(options_at(N, p, s))
        for (fn, l), src in done.items():
            key = "%s: %s in %s" % (sym, l, fn)
            rep.count("routines and the unmasked reads they reach")
            if not src: rep.check(key, True, ""); continue
            bad, und = builders(args.get(sym), src, may_null, "may hold nulls", "null-freeness not known")
            if bad: rep.check(key, False, "%s reads stored values without their validity (%s) and %s" % (fn, l, bad[0]), function=fn)
            elif und: rep.check(key, None, und[0])
            else: rep.check(key, True, "")
    rep.counts["places that read values without validity"] = len(reads)
    rep.floor("places that read values without validity", 20)
