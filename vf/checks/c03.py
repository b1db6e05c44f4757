from .. import builders as B, pysym as S, pytypes as T, mterm
from .. import native as NV, cfg, mir
import json, os
TECHNIQUE = 'context-sensitive input-access dataflow over MIR vs symbolic argument lists'
RULE = ("For every option path of every builder the list of positional inputs is compared with what the native routine reads (input accesses and typed downcasts found by a context-sensitive "
        "dataflow walk of its MIR): no read position is missing, no passed input is unread, each input whose type the builder fixes (typed literal, cast, comparison) has the type read there, "
        "and a position read as a number or boolean is either fixed by the builder or one of the reviewed positions whose type is the caller's.")
TRUST = ["polars casts and typed literals produce the type they name"]
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec", "c03_user_typed.json")

def reads(ctx):
    return ctx.cached("inputs_reads", lambda: {s: ctx.native.inputs_reads(p) for s, p in ctx.native.plugins.items()})

def optional(ctx, plugin):
    """{position: (option field name, value of the option under which it is read)} for inputs read only under an option"""
    N = ctx.native
    out, every = {}, {}
    root, kroot = ("arg", plugin.body.canon, 1), ("arg", plugin.body.canon, plugin.kw_arg)
    if plugin.kwargs is None: return out
    v = ctx.w.view(plugin.body)
    c = cfg.of(plugin.body)
    for b in plugin.body.blocks.values():
        if b.cleanup or b.id not in c.reachable: continue
        ops = list(b.term.args) if b.term.kind == "call" else []
        if b.term.kind == "call" and b.term.dest is not None: ops.append(b.term.dest)
        ps = set()
        for t in ([v.call_term(b.term, 30, ())] if b.term.kind == "call" else []):
            q = NV._input_pos(t, root)
            if q and q[0] == "pos": ps.add(q[1])
        for st in b.stmts:
            for o in st.rv.ops:
                q = NV._input_pos(v.term(o), root)
                if q and q[0] == "pos": ps.add(q[1])
        for k in ps:
            opt = None
            for s, t in c.guards(b.id):
                tm = plugin.body.blocks[s].term
                d = v.term(tm.op) if tm.op is not None else ()
                if d and d[0] == "field" and d[1] == kroot:
                    vals = cfg.edge_value(plugin.body, s, t)
                    opt = (next((f.name for f in plugin.kwargs.fields if f.index == d[2]), None), vals != [0])
            every.setdefault(k, []).append(opt)
    return {k: os_[0] for k, os_ in every.items() if all(o is not None for o in os_) and len(set(os_)) == 1}

def needed(r, rest, opts, kwargs):
    """largest position read given the options, or None when an option's value is not known"""
    mx = -1
    for k in r:
        if k in opts:
            name, want = opts[k]
            val = kwargs.get(name)
            if not isinstance(val, S.Const): 
                if val is not None: return None
            elif bool(val.v) != want: continue
        mx = max(mx, k)
    if rest: mx = max(mx, min(rest) - 1)
    return mx

def run(ctx, rep):
    N = ctx.native
    rd = reads(ctx)
    with open(SPEC) as f: user_ok = {tuple(x) for x in json.load(f)["positions"]}
    seen = set()
    for u in B.uses(ctx):
        if u.symbol not in N.plugins: continue
        r, rest = rd[u.symbol]
        args = u.native.args
        key0 = "%s -> %s" % (u.fn, u.symbol)
        rep.count("argument lists")
        star = next((i for i, a in enumerate(args) if isinstance(a, S.Star)), None)
        nfix = len(args) if star is None else star
        opts = ctx.cached(("c03opt", u.symbol), lambda: optional(ctx, N.plugins[u.symbol]))
        mx = needed(r, rest, opts, {k.v: v for k, v in (u.native.kwargs or ()) if isinstance(k, S.Const)})
        unknown = any(isinstance(a, S.Op) and a.op in ("starred", "unknown") for a in args)
        if star is None and not unknown:
            rep.check(key0 + ": count", None if mx is None else len(args) > mx, "%s reads input %s but %s passes only %d inputs" % (u.symbol, mx, u.fn, len(args)))
        for i, a in enumerate(args):
            if star is not None and i >= star: break
            key = "%s[%d]" % (key0, i)
            isread = i in r or any(i >= k for k in rest)
            rep.check(key + ": read", isread, "input %d (%s) is passed to %s, which never reads it" % (i, S.show(a)[:60], u.symbol))
            acc = r.get(i, set())
            typed = {x for x in acc if x not in ("any", "dispatch")}
            if not typed or "any" in acc or "dispatch" in acc: continue
            d = T.dtype_of(a)
            if d is None: rep.check(key + ": type", None, "type of %s is not fixed syntactically" % S.show(a)[:60])
            elif d == T.USER:
                if typed & {"String", "List", "Struct"}: continue
                rep.check(key + ": fixed", (u.fn.split(".")[-1], u.symbol, i) in user_ok or any((x, u.symbol, i) in user_ok for x in ("*",)),
                          "%s reads input %d as %s, but %s passes %s without fixing its type" % (u.symbol, i, "/".join(sorted(typed)), u.fn, S.show(a)[:60]))
            else:
                rep.check(key + ": type", d in typed, "%s reads input %d as %s, but %s passes %s (%s)" % (u.symbol, i, "/".join(sorted(typed)), u.fn, d, S.show(a)[:60]))
    rep.floor("argument lists", 250)
    rep.counts["routines with read positions"] = sum(1 for a, b in rd.values() if a or b)
    rep.floor("routines with read positions", 100)
