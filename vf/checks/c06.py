"""C06: a routine behind an element-wise expression computes each output row from the same row of its inputs."""
RULE = ("every success outcome of every native routine that a builder declares is_elementwise is brought to normal form; it must be a map of one function over the rows of the input columns "
        "(apply, zip + map, per-row builder loop, chunked evaluation that tiles the rows), the function must mention the input columns only through its own row, or through the single value of a column "
        "that is an option or is tested to have one row, and must carry no state from row to row")
TECHNIQUE = "path-sensitive abstract interpretation of MIR to normal forms; dependency check of the row function"
TRUST = ["Polars' apply / iterator combinators visit rows in order, once", "the input columns of one call have equal length unless the code compares them", "the state of a random generator may pass from row to row"]
from ..plugs import Plugs
from ..msym import walk, kids, show, mk
from ..nf import TooBig
from .. import builders as B
from ..rowwise import Rowwise, call
from .c05 import success

# routines confirmed to work row by row: here a result that cannot be read is a limit of the analysis
KNOWN = set("""map_words normalize_string normalize_whitespace pl_diagamma pl_exp2 pl_expit pl_fract pl_gamma pl_gcd pl_haversine pl_is_stopword pl_jaro pl_jitter pl_lcm pl_list_jaccard pl_logit pl_next_down
pl_next_up pl_perturb pl_rand_binomial pl_rand_exp pl_rand_int pl_rand_normal pl_rand_str pl_random pl_snowball_stem pl_to_camel pl_to_constant pl_to_pascal pl_to_snake pl_trunc pl_xlogy remove_diacritics remove_non_ascii
pl_levenshtein pl_levenshtein_sim pl_levenshtein_filter pl_d_levenshtein pl_d_levenshtein_sim pl_osa pl_osa_sim pl_jw pl_lcs_seq pl_lcs_sim pl_fuzz pl_hamming pl_hamming_filter pl_hamming_padded pl_str_jaccard
pl_sorensen_dice pl_overlap_coeff pl_tversky_sim""".split())

def elementwise(ctx):
    out = {}
    for u in B.uses(ctx):
        if u.symbol and u.flags.get("is_elementwise"): out.setdefault(u.symbol, set()).add(u.fn)
    return out

def data_args(ctx):
    """{symbol: positions of arguments that can be a column of the caller (not always a literal)}"""
    out = {}
    for u in B.uses(ctx):
        if u.symbol:
            for i, a in enumerate(u.native.args):
                if "str_to_expr" in str(a) and not const_arg(a): out.setdefault(u.symbol, set()).add(i)
    return out

def const_arg(a):
    s = str(a)
    return "str_to_expr')(pl.lit(" in s or s.startswith("pl.lit(")

def one_row(W, conds, k):
    """the path knows that column k has one row"""
    def key(x):
        l = call(x, "len")
        c = W.R.col(l[0]) if l else W.R.col(x.a[0]) if x.k == "len" else None
        return 1 if x is mk("int", 1) else ("c", c) if c is not None else None
    same = {1}
    eqs = [[key(x) for x in c.a[1:]] for c, b in conds.items() if b is True and c.k == "bin" and c.a[0] == "Eq"]
    for _ in eqs:
        for e in eqs:
            if None not in e and (e[0] in same or e[1] in same): same |= set(e)
    return ("c", k) in same

def generated(W, v):
    """a column that depends on the inputs only through single values (n fresh draws, n copies of a constant)"""
    seen, bad = set(), []
    def go(t):
        if t in seen: return
        seen.add(t)
        if W.single(t) is not None: return
        if call(t, "name", "len"): return  # how a column is called and how long it is are the same for every row
        if W.R.col(t) is not None or (t.k == "arg" and t.a[-1] == 1): bad.append(t); return
        for x in kids(t): go(x)
    go(v)
    return not bad

def run(ctx, rep):
    P = Plugs(ctx.native, max_paths=4000)
    decl = elementwise(ctx)
    data = data_args(ctx)
    rep.count("elementwise_routines", len(decl)); rep.floor("elementwise_routines", 20)
    for sym, fns in sorted(decl.items()):
        if sym not in P.n.plugins: rep.undecide(sym, "no such routine"); continue
        who = "%s (%s)" % (sym, ", ".join(sorted(fns)))
        try: q, outs = success(P, sym)
        except TooBig: rep.undecide(sym, "no normal form within the budget"); continue
        W = Rowwise(q)
        rows = {}
        for c, v, p in outs: rows.setdefault(v, (W.decode(v), []))[1].append(c)
        rowcols = {c for r, _ in rows.values() if r is not None for c in r.leaves.values()}
        for v, (r, cs) in rows.items():
            if r is None:
                if W.R.length(v) is not None and generated(W, v): rep.count("generated_columns"); continue
                bad = W.mixes(v)
                if bad is not None: rep.check((sym, v), False, "%s: declared element-wise, but its result depends on several rows of an input: %s in %s" % (who, show(bad, 5)[:200], show(v, 4)[:200]))
                elif sym not in KNOWN: rep.check((sym, v), False, "%s: declared element-wise, but its result is not computed row by row: %s" % (who, show(v, 6)[:300]))
                else: rep.undecide(sym, "not read as a row-by-row result: " + show(v, 6)[:300])
                continue
            rep.count("row_functions")
            st = W.state(r)
            ok, msg = True, ""
            if st: ok, msg = False, "carries state from row to row: " + show(st[0], 6)[:200]
            for kind, k, t in W.foreign(r):
                if kind == "single":
                    if k in r.leaves.values(): ok, msg = False, "reads the first row of the column it maps over: " + show(t, 5)
                    elif (k in rowcols or k in data.get(sym, ())) and not all(one_row(W, c, k) for c in cs): ok, msg = False, "reads the first row of column %d without knowing that it has only one" % k
                elif kind == "mix": ok, msg = False, "the row function looks at a whole column: " + show(t, 5)[:200]
                else: rep.undecide(sym, "mentions an input in " + show(t, 5)[:200])
            rep.check((sym, v), ok, "%s: declared element-wise, but %s" % (who, msg))
