"""C11: null in, null out for row-wise text and number functions."""
RULE = ("every success outcome of every native routine behind a row-wise text or number function is brought to normal form; in every case of its row function a missing row input must give a missing result and present inputs a present one "
        "(save for the documented exceptions), and the single value of a broadcast column may be unwrapped only where it is known to be present")
TECHNIQUE = "path-sensitive abstract interpretation of MIR to normal forms; case analysis of the row function over presence of its inputs"
TRUST = ["Polars' apply_values, apply_nonnull_values_generic, binary_elementwise_values and apply_into_string_amortized keep nulls", "Polars' iterators yield None exactly for null rows"]
from ..plugs import Plugs
from ..msym import walk, show, mk, NONE
from ..nf import TooBig
from ..rowwise import Rowwise, call, last
from .c05 import success
from .c06 import data_args, elementwise
from .c23 import two_column

# (routine, head of the test whose failure documents a null): Hamming distance is defined for texts of equal length only
NULLS = {"pl_hamming": "distance"}

def absent(v): return v is NONE or (v.k == "var" and v.a[0] == "None")

def is_nullfree(W, t, b, k):
    if t.k == "call" and last(t) in ("has_nulls", "has_validity"): return b is False and W.R.col(t.a[2]) == k
    if t.k == "bin" and t.a[0] in ("Eq", "Gt") and b is (t.a[0] == "Eq"):
        xs = [x for x in t.a[1:] if x is not mk("int", 0)]
        return len(xs) == 1 and bool(call(xs[0], "null_count")) and W.R.col(xs[0].a[2]) == k
    return False

def run(ctx, rep):
    P = Plugs(ctx.native, max_paths=4000)
    data = data_args(ctx)
    decl = {}
    for d in (elementwise(ctx), two_column(ctx)):
        for s, f in d.items(): decl.setdefault(s, set()).update(f)
    rep.count("routines", len(decl)); rep.floor("routines", 40)
    for sym, fns in sorted(decl.items()):
        if sym not in P.n.plugins: rep.undecide(sym, "no such routine"); continue
        who = "%s (%s)" % (sym, ", ".join(sorted(fns)))
        try: q, outs = success(P, sym)
        except TooBig: rep.undecide(sym, "no normal form within the budget"); continue
        W = Rowwise(q)
        by = {}
        for c, v, p in outs: by.setdefault(v, []).append(c)
        for i, (v, cs) in enumerate(by.items()):
            row = W.decode(v)
            if row is None:
                if v.k == "call" and last(v) == "full_null": rep.count("all_null_results"); continue
                if W.R.length(v) is not None and not any(W.R.col(x) is not None and W.single(y) is None for y in walk(v) if y.k == "call" for x in y.a[2:3] if hasattr(x, "k") and last(y) != "len"): rep.count("generated_columns"); continue
                if sym in data: rep.undecide(sym, "not read as a row-by-row result: " + show(v, 6)[:300])
                continue
            # no value may be made up where the single value of a broadcast column is null
            for c in cs:
                gone = [t for t, b in c.items() if b is False and t.k == "has" and W.single(t.a[0]) in data.get(sym, ())]
                if gone and row.leaves: rep.check((sym, i, "single null"), row.kind != "val" and all(absent(w) for _, w in q.items(row.body)), "%s: the single value %s is null, but the result is not all null" % (who, show(gone[0], 5)[:120]))
            if not row.leaves: continue
            rep.count("row_functions")
            if row.blind:
                ok = all(any(is_nullfree(W, t, b, k) for t, b in c.items()) for c in cs for k in row.blind)
                rep.check((sym, i, "blind"), ok, "%s: goes over the rows of column(s) %s as if none were null" % (who, sorted(row.blind)))
                continue
            # the single value of a broadcast column
            unwrapped = {x for x in walk(row.body) if x.k == "pay" and x.a[0].k == "call" and W.single(x.a[0]) is not None and W.single(x.a[0]) in data.get(sym, ())}
            for x in unwrapped:
                k = W.single(x.a[0])
                ok = all(c.get(mk("has", x.a[0])) is True for c in cs) or all(c.get(mk("has", x.a[0])) is True for c, w in q.items(row.body) if any(y is x for y in walk(w)) or any(y is x for t in c for y in walk(t)))
                rep.check((sym, "single", k), ok, "%s: a null single value of column %d is unwrapped (%s), which panics instead of giving null" % (who, k, show(x, 5)[:120]))
            if row.kind == "val":
                for j, (c, w) in enumerate(q.items(row.body)):
                    gone = [t for t, b in c.items() if b is False and t.k == "has" and W.single(t.a[0]) in data.get(sym, ())]
                    if gone: rep.check((sym, i, j, "single null"), False, "%s: the single value %s is null, but rows get the value %s" % (who, show(gone[0], 5)[:120], show(w, 5)[:120]))
            if row.kind == "val": rep.check((sym, i, "val"), True, ""); continue
            for j, (c, w) in enumerate(q.items(row.body)):
                present = {t: c.get(mk("has", t)) for t in row.leaves}
                if w.k == "panic": rep.check((sym, i, j), False, "%s: panics when %s" % (who, [(show(t, 4), b) for t, b in c.items()][:3])); continue
                if absent(w):
                    ok = any(b is False for b in present.values())
                    if not ok and sym in NULLS:
                        ok = any(b is False and t.k == "has" and t.a[0].k == "call" and last(t.a[0]) == NULLS[sym] for t, b in c.items())
                    if not ok and any(b is False and t.k == "has" and W.single(t.a[0]) in data.get(sym, ()) for t, b in c.items()): ok = True
                    rep.check((sym, i, j), ok, "%s: a row with every input present becomes null when %s" % (who, "; ".join("%s is %s" % (show(t, 5)[:100], b) for t, b in c.items() if t.k != "has" or t.a[0] not in row.leaves)))
                else:
                    miss = [row.leaves[t] for t, b in present.items() if b is not True]
                    free = [k for t, k in row.leaves.items() if present[t] is None and not any(y is t for y in walk(w)) and not any(y is t for u in c for y in walk(u))]
                    known = w.k == "var" and w.a[0] == "Some"
                    if not miss: ok = True
                    elif any(b is False for b in present.values()): ok = False
                    elif known: ok = False
                    else: rep.undecide(sym, "presence of the result not read: " + show(w, 6)[:200]); continue
                    if not ok and not known and w.k not in ("var",): rep.undecide(sym, "presence of the result not read: " + show(w, 6)[:200]); continue
                    rep.check((sym, i, j), ok, "%s: a row whose column %s is null still gets a value: %s" % (who, miss, show(w, 6)[:200]))
