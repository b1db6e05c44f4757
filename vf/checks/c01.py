from .. import builders as B, pysym as S, polapi
import builtins
TECHNIQUE = 'path-sensitive abstract interpretation (term domain) of the Python syntax tree (all option paths) against the export table read from rustc MIR'
RULE = ("For every function and method of the Python package, every option path is enumerated by path-sensitive abstract interpretation (term domain) of the syntax tree; on each path the routine name "
        "handed to the engine (after string construction and the 32-bit-mode suffix) must be an exported plugin symbol of the compiled crate (read from its MIR), the library "
        "path must be the package directory, and the path must not end in an internal call error (wrong argument of a package function, name never defined), "
        "and every attribute, method and keyword argument it uses on a polars expression or frame exists in the installed polars (read from its source).")
TRUST = ["rustc's MIR lists every #[polars_expr] export of the crate", "builders are reached only through their Python source (no monkey patching)"]

def run(ctx, rep):
    N = ctx.native
    rep.count("exported routines", len(N.exported))
    rep.floor("exported routines", 100)
    fns = set()
    for u in B.uses(ctx):
        rep.count("native calls on option paths")
        fns.add(u.fn)
        s = u.symbol
        t = u.native.symbol
        if s is None:
            if isinstance(t, S.Sym): continue          # a forwarder: judged at its callers
            rep.undecide("%s: symbol %s" % (u.fn, S.show(t)), "routine name not constant on this path")
            continue
        rep.check("%s -> %s" % (u.fn, s), s in N.exported, "%s asks the engine to run '%s', which the compiled extension does not export" % (u.fn, s),
                  condition=[(S.show(c), v) for c, v in u.path.conds][:12])
        pp = dict(u.native.term.args[2]).get("plugin_path")
        ok = isinstance(pp, S.Op) or isinstance(pp, S.Sym) or pp is not None
        rep.check("%s -> %s: library" % (u.fn, s), ok, "no library path is passed to the engine")
    rep.counts["builders"] = len(fns)
    rep.floor("builders", 80)
    rep.floor("native calls on option paths", 250)
    api = ctx.cached("polapi", polapi.Api)
    for q, (clo, paths, tr, err) in B.run_all(ctx).items():
        f = B.short(q)
        done = set()
        for p in paths:
            memo = {}
            for t0 in [p.value] + list(p.calls) + [c for c, _ in p.conds]:
                for t in S.walk(t0) if t0 is not None and api.root else ():
                    if not isinstance(t, S.Op) or t.op not in ("call", "attr") or (t, ) in done: continue
                    done.add((t, ))
                    rep.count("polars API uses")
                    w = api.problem(t, p.typ, memo)
                    if w: rep.fail("%s: %s" % (f, w), "an option combination of %s ends in an error inside polars: %s (in %s)" % (f, w, S.show(t)[:200]), condition=[(S.show(c), v) for c, v in p.conds][:12])
        if err or tr: rep.undecide(f, "path enumeration stopped: %s" % (err or "budget"))
        for p in paths:
            rep.count("paths")
            if p.outcome == "raise" and isinstance(p.value, S.Op):
                t = S.show(p.value)
                if t.startswith("TypeError('unexpected argument") or t.startswith("TypeError('missing") or t.startswith("TypeError('too many"):
                    rep.fail("%s: %s" % (f, t[:120]), "an option combination of %s ends in an internal call error: %s" % (f, t), condition=[(S.show(c), v) for c, v in p.conds][:12])
            for t in S.walk(p.value) if p.outcome == "return" and p.value is not None else ():
                if isinstance(t, S.Op) and t.op == "undefined" and not hasattr(builtins, t.args[1]):
                    rep.fail("%s: undefined %s" % (f, t.args[1]), "on an option path %s uses the name '%s', which is not defined there" % (f, t.args[1]))
