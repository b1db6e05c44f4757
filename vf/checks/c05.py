"""C05: a routine behind a scalar-returning expression yields exactly one row on every success path."""
RULE = ("every success outcome of every native routine that a builder declares returns_scalar is brought to normal form and its number of rows is read off the term "
        "(builders count their appends, vectors their elements, frames their selections, zips and maps their source); it must be the constant 1, and a struct's columns must have that many rows too")
TECHNIQUE = "path-sensitive abstract interpretation of MIR; symbolic row counts of the returned column"
TRUST = ["Polars' aggregations (sum, mean, dot, len ...) yield one row", "a struct column built with length n has n rows"]
from ..plugs import Plugs
from ..msym import walk, show
from ..nf import TooBig
from .. import builders as B
from ..rowlen import RowLen, ONE, call
from .c08 import Chunks

def scalars(ctx):
    out = {}
    for u in B.uses(ctx):
        if u.symbol and u.flags.get("returns_scalar"): out.setdefault(u.symbol, set()).add(u.fn)
    return out

def success(P, sym, q=None):
    """(q, [(conds, value)]) of the success outcomes, chunked evaluation rewritten"""
    q = q or P.nf()
    ch = Chunks(q)
    return q, [(c, ch.rewrite(v.a[1]), p) for c, v, p in q.paths(P.n.plugins[sym].body) if v.k == "var" and v.a[0] == "Ok"]

def run(ctx, rep):
    P = Plugs(ctx.native, max_paths=4000)
    decl = scalars(ctx)
    rep.count("scalar_routines", len(decl)); rep.floor("scalar_routines", 15)
    for sym, fns in sorted(decl.items()):
        if sym not in P.n.plugins: rep.undecide(sym, "no such routine"); continue
        who = "%s (%s)" % (sym, ", ".join(sorted(fns)))
        try: q, outs = success(P, sym)
        except TooBig: rep.undecide(sym, "no normal form within the budget"); continue
        R = RowLen(q)
        if not outs: rep.undecide(sym, "no success outcome found"); continue
        seen = set()
        for c, v, p in outs:
            if v in seen: continue
            seen.add(v)
            n = R.length(v)
            if n is None: rep.undecide(sym, "rows of " + show(v, 5)[:200]); continue
            if n != ONE and not R.certain(n): rep.undecide(sym, "number of rows is " + show(q.frompoly(n), 6)[:200]); continue
            rep.check((sym, v), n == ONE, "%s: declared to return a scalar, but an outcome has %s rows: %s" % (who, show(q.frompoly(n), 6)[:120], show(v, 4)[:200]))
            rep.count("outcomes", 1)
            for x in walk(v):
                cols = R.struct_cols(x)
                if not cols: continue
                m, cs = cols
                for y in cs:
                    k = R.length(y)
                    if k is None or m is None: rep.count("struct_columns_unread", 1); continue
                    if k != m and not (R.certain(k) and R.certain(m)): rep.count("struct_columns_unread", 1); continue
                    rep.check((sym, x, y), k == m, "%s: a column of the returned struct has %s rows where the struct has %s" % (who, show(q.frompoly(k), 6)[:120], show(q.frompoly(m), 6)[:120]))
                    rep.count("struct_columns", 1)
