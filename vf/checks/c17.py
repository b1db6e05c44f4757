import ast
from .. import pysym as S, pipe
from ..pysym import Const, Sym, Op, Star, LList, Obj, Closure
TECHNIQUE = "path-sensitive abstract interpretation of the blueprint's syntax trees with symbolic step lists"
RULE = ("Each blueprint method is evaluated abstractly on a blueprint whose step list already holds an earlier step: on every returning path the earlier step must stay first, at least one step must be appended, the blueprint "
        "itself returned, and every learning step must hold the blueprint's exclusions and the method's own column argument.  FitStep.fit must drop every name in its exclusions before calling the transform; "
        "the constructor's exclusions must contain the target and every user-listed name on all four combinations; materialize is evaluated on a list of four steps (learning, filter, learning, select) and must keep each once, in order, "
        "fitting each learning step on the frame its predecessors produce, and record the frame's final names and its own name, target, input names and casing.")
TRUST = ["custom functions passed to append_fit_func only touch the columns they are given", "explicit per-column rules (conditional_impute) are the user's own selection"]

def run(ctx, rep):
    C = pipe.Classes(ctx.pkg)
    it = S.Interp(ctx.pkg, max_paths=600)
    adders(C, it, rep)
    fitstep(C, it, rep)
    init(C, it, rep)
    materialize(C, it, rep)
    rep.floor("step adding paths", 25)
    rep.floor("learning steps", 10)

COLS = ("cols", "features", "col")

def adders(C, it, rep):
    for fn in pipe.methods(C.Blueprint):
        n = fn.name
        if n.startswith("_"): continue
        ps = it.run(Closure(fn, C.Blueprint.mod, cls=C.Blueprint), selfobj=C.blueprint([Sym("earlier")]))
        par = pipe.params(fn)
        for p in ps:
            if p.outcome != "return": continue
            st = p.selfobj.attrs.get("_steps")
            changed = not (isinstance(st, LList) and len(st.e) == 1 and st.e[0] == Sym("earlier"))
            if n in ("materialize", "fit", "transform"):
                rep.check("Blueprint.%s: steps kept" % n, not changed, "Blueprint.%s changes the blueprint's own steps" % n)
                continue
            if n == "append_step_from_dict":
                # delegates to the named method with the recorded arguments
                d = S.deps(p.value)
                rep.check("Blueprint.append_step_from_dict: forwards", "dictionary" in d, "append_step_from_dict does not call the recorded method")
                continue
            rep.count("step adding paths")
            key = "Blueprint." + n
            if not isinstance(st, LList):
                rep.undecide(key, "steps are not a list on a path"); continue
            rep.check(key + ": returns the blueprint", p.raw is p.selfobj, "Blueprint.%s does not return the blueprint" % n)
            rep.check(key + ": keeps earlier steps first", bool(st.e) and st.e[0] == Sym("earlier") and sum(1 for x in st.e if x == Sym("earlier")) == 1,
                      "Blueprint.%s does not append after the steps already there: %s" % (n, S.show(S.freeze(st))[:160]))
            new = [x for x in st.e if x != Sym("earlier")]
            rep.check(key + ": adds a step", bool(new), "a path through Blueprint.%s adds no step" % n)
            for x in new:
                if not isinstance(x, Obj):
                    rep.undecide(key + ": step kind", S.show(S.freeze(x))[:80]); continue
                if x.cls.name == "FitStep":
                    rep.count("learning steps")
                    ex = S.freeze(x.attrs.get("exclude", Const(None)))
                    rep.check(key + ": exclusions", whole(ex, Sym("self.exclude")), "the learning step Blueprint.%s adds excludes %s instead of the blueprint's exclusions" % (n, S.show(ex)[:80]))
                    want = [c for c in COLS if c in par]
                    cols = S.freeze(x.attrs.get("cols", Const(None)))
                    if want:
                        rep.check(key + ": columns", bool(S.deps(cols) & set(want)), "the learning step Blueprint.%s adds does not receive its column argument (%s)" % (n, S.show(cols)[:60]))
                    f = x.attrs.get("func")
                    rep.check(key + ": transform", f is not None and S.freeze(f) != Const(None), "the learning step has no transform")
                    if isinstance(f, S.Partial):
                        fn2 = f.f
                        # options handed over under their own names
                        if isinstance(fn2, Closure):
                            q = pipe.params(fn2.node)
                            for k, v in f.kw.items():
                                rep.count("bound options")
                                rep.check("%s: %s known" % (key, k), k in q or fn2.node.args.kwarg is not None, "Blueprint.%s binds option '%s', which %s does not take" % (n, k, fn2.name))
                                if k == "target": rep.check(key + ": target", bool(S.deps(S.freeze(v)) & {"target", "self.target"}) and not (any(c == Op("cmp", "==", Sym("target"), Const(None)) and not b for c, b in p.conds) and "target" not in S.deps(S.freeze(v))), "Blueprint.%s fits on target %s" % (n, S.show(S.freeze(v))[:50]))
                                elif k in par: rep.check("%s: %s bound" % (key, k), k in S.deps(S.freeze(v)) or any(k in S.deps(c) for c, _ in p.conds), "Blueprint.%s gives its transform %s=%s" % (n, k, S.show(S.freeze(v))[:50]))

def whole(t, x):
    """t is x, or a list holding at least every element of x"""
    if t == x: return True
    if isinstance(t, Op) and t.op in ("list", "tuple", "set"):
        return any(isinstance(e, Star) and e.t == Op("elem", x) for e in t.args)
    if isinstance(t, Op) and t.op == "bin" and t.args[0] in ("+", "|"): return whole(t.args[1], x) or whole(t.args[2], x)
    if isinstance(t, Op) and t.op == "call" and isinstance(t.args[0], Op) and t.args[0].op == "attr" and t.args[0].args[1] == "copy": return whole(t.args[0].args[0], x)
    return False

def fitstep(C, it, rep):
    m = C.method(C.FitStep, "fit")
    if m is None: rep.undecide("FitStep.fit", "no such method"); return
    for p in it.run(m, selfobj=C.fit(1)):
        if p.outcome != "return": continue
        rep.count("fit paths")
        v = p.value
        if not (isinstance(v, Op) and v.op == "call" and v.args[0] == Sym("f1")):
            # the result may be post-processed; find the call of the transform
            cs = [t for t in p.calls if t.args[0] == Sym("f1")]
            if not rep.check("FitStep.fit: calls the transform", len(cs) == 1, "FitStep.fit does not call the transform exactly once and return its result"): continue
            v = cs[0]
        args = list(v.args[1]) + [x for _, x in v.args[2]]
        r, ops = pipe.plan_key(args[0]) if args else (None, ())
        rep.check("FitStep.fit: frame", r == Sym("df") and not ops, "the transform is not fitted on the frame it is given: %s" % S.show(args[0] if args else v)[:80])
        colsarg = args[1:]
        none = any(c == Op("cmp", "==", Sym("c1"), Const(None)) and b for c, b in p.conds)
        if none:
            rep.check("FitStep.fit: no columns", not colsarg or colsarg[0] == Const(None), "columns invented")
            continue
        rep.check("FitStep.fit: columns given", len(colsarg) == 1, "the transform does not receive the selected columns")
        for a in colsarg:
            ok = isinstance(a, Op) and a.op in ("list", "tuple", "set") and bool(a.args)
            for e in (a.args if ok else ()):
                e = e.t if isinstance(e, Star) else e
                guards = set(e.args[1:]) if isinstance(e, Op) and e.op == "filtered" else set()
                base = e.args[0] if guards else e
                guarded = any(excl(g, base, p) for g in guards) or any((not b) and c == Op("cmp", "in", base, Sym("ex1")) for c, b in p.conds)
                minus = "ex1" in S.deps(base)       # computed from the exclusions (set difference, exclude(...))
                rep.check("FitStep.fit: excluded columns dropped", guarded or minus, "FitStep.fit passes the transform columns that may be in its exclusions: %s" % S.show(e)[:100])
                extra = [g for g in guards if not excl(g, base, p)]
                rep.check("FitStep.fit: selected columns kept", not extra, "FitStep.fit drops selected columns for another reason: %s" % (S.show(extra[0])[:80] if extra else ""))
                rep.check("FitStep.fit: columns from the selector", "c1" in S.deps(base), "columns do not come from the selection")
            if not ok:
                d = S.deps(a)
                rep.check("FitStep.fit: excluded columns dropped", True if {"c1", "ex1"} <= d else (False if "ex1" not in d else None), "FitStep.fit passes %s" % S.show(a)[:100])
    rep.floor("fit paths", 2)

def excl(g, base, p):
    if g == Op("cmp", "not in", base, Sym("ex1")): return True
    if isinstance(g, Op) and g.op == "not" and g.args[0] == Op("cmp", "in", base, Sym("ex1")): return True
    if isinstance(g, Op) and g.op == "cmp" and g.args[0] == "not in" and g.args[1] == base and whole(g.args[2], Sym("ex1")): return True
    return False

def init(C, it, rep):
    m = C.method(C.Blueprint, "__init__")
    for tn, t in (("no target", Const(None)), ("a target", Const("t"))):
        for en, e in (("no exclude list", Const(None)), ("an exclude list", LList([Const("a"), Const("b")]))):
            for p in it.run(m, selfobj=Obj(C.Blueprint, {}), params={"target": t, "exclude": e}):
                if p.outcome != "return": continue
                rep.count("constructor paths")
                key = "Blueprint.__init__: %s, %s" % (tn, en)
                ex = p.selfobj.attrs.get("exclude")
                if not isinstance(ex, LList) or ex.has_star():
                    rep.undecide(key, S.show(S.freeze(ex))[:80] if ex is not None else "no attribute exclude"); continue
                got = {x.v for x in ex.e if isinstance(x, Const)}
                want = ({"t"} if t != Const(None) else set()) | ({"a", "b"} if isinstance(e, LList) else set())
                rep.check(key, got == want and len(got) == len({S.freeze(x) for x in ex.e}), "with %s and %s the blueprint's exclusions are %s" % (tn, en, S.show(S.freeze(ex))))
                for a in ("name", "target", "lowercase", "uppercase"):
                    v = S.freeze(p.selfobj.attrs.get(a, Const("missing")))
                    ok = v == t if a == "target" else a in S.deps(v) or any(a in S.deps(c) for c, _ in p.conds)
                    rep.check("Blueprint.__init__: " + a, ok, "the blueprint's %s is %s" % (a, S.show(v)[:40]))
    rep.floor("constructor paths", 4)

def materialize(C, it, rep):
    m = C.method(C.Blueprint, "materialize")
    steps = [C.fit(1), C.step(2, "filter"), C.fit(3), C.step(4, "select")]
    n = 0
    for p in it.run(m, selfobj=C.blueprint(steps)):
        if p.outcome != "return": continue
        n += 1
        o = p.raw
        if not isinstance(o, Obj) or o.cls.name != "Pipeline":
            rep.undecide("Blueprint.materialize", "result is " + S.show(p.value)[:60]); continue
        a = {k: S.freeze(v) for k, v in o.attrs.items()}
        tr = o.attrs.get("transforms")
        if not isinstance(tr, LList) or tr.has_star():
            rep.undecide("Blueprint.materialize: steps", "not a list"); continue
        got = []
        for x in tr.e:
            if isinstance(x, Obj): got.append((S.freeze(x.attrs.get("context", Const(None))), pipe.unwrap(S.freeze(x.attrs.get("exprs", Const(None))))))
            else: got.append((None, S.freeze(x)))
        en = lambda c: Op("enum", "PLContext", c)
        # expected: frame before each learning step
        f = {}
        for t in p.calls:
            if t.args[0] in (Sym("f1"), Sym("f3")): f.setdefault(t.args[0].name, []).append(t)
        if not rep.check("Blueprint.materialize: each learning step fitted once", all(len(f.get(k, ())) == 1 for k in ("f1", "f3")), "a learning step is fitted %s times" % {k: len(v) for k, v in f.items()}): continue
        f1, f3 = f["f1"][0], f["f3"][0]
        nf1, nf3 = pipe.norm_frames(f1), pipe.norm_frames(f3)
        def frame(t):
            r, ops = pipe.plan_key((list(t.args[1]) + [x for _, x in t.args[2]])[0])
            return r, tuple((m, pipe.norm_frames(x)) for m, x in ops)
        r1, o1 = frame(f1)
        rep.check("Blueprint.materialize: first learning step's frame", r1 == Sym("self._df") and o1 == (), "the first learning step is fitted on %s" % S.show(f1)[:120])
        r3, o3 = frame(f3)
        e3 = (("with_columns", nf1), ("filter", Sym("e2")))
        rep.check("Blueprint.materialize: later learning step's frame", r3 == Sym("self._df") and o3 == e3,
                  "a later learning step is not fitted on the data as transformed by the steps before it: %s" % S.show(f3)[:200])
        ok = [(c, pipe.norm_frames(x)) for c, x in got] == [(en("with_columns"), nf1), (en("filter"), Sym("e2")), (en("with_columns"), nf3), (en("select"), Sym("e4"))]
        rep.check("Blueprint.materialize: steps kept once, in order", ok, "materialize turns [learning 1, filter 2, learning 3, select 4] into %s" % "; ".join("%s %s" % (S.show(c) if c else "?", S.show(x)[:50]) for c, x in got))
        out = a.get("feature_names_out_", Const(None))
        hit = None
        for t in S.walk(out):
            r, ops = pipe.plan_key(t)
            names = [m for m, _ in ops]
            if r == Sym("self._df") and "select" in names:
                ops = tuple((m, pipe.norm_frames(x)) for m, x in ops if m not in ("collect_schema", "names", "head", "limit"))
                if hit is None or len(ops) > len(hit): hit = ops
        rep.check("Blueprint.materialize: output names", hit == e3 + (("with_columns", nf3), ("select", Sym("e4"))), "feature_names_out_ does not come from the fully transformed data: %s" % S.show(out)[:120])
        for k in ("name", "target", "feature_names_in_", "lowercase", "uppercase"):
            rep.check("Blueprint.materialize: " + k, S.deps(a.get(k, Const(None))) == {"self." + k}, "the pipeline's %s is %s" % (k, S.show(a.get(k, Const(None)))[:60]))
        for fit, i in ((f1, 1), (f3, 3)):
            al = list(fit.args[1]) + [x for _, x in fit.args[2]]
            rep.check("Blueprint.materialize: uses FitStep.fit", len(al) == 1 or ("ex%d" % i) in S.deps(al[1:]), "a learning step is fitted without its exclusions")
    rep.count("materialize paths", n)
    rep.floor("materialize paths", 1)
