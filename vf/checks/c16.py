import ast
from .. import pysym as S, pipe
from ..pysym import Const, Sym, Op, Star, LList, Obj, Closure
TECHNIQUE = "abstract interpretation of save followed by load on symbolic pipelines, compared attribute by attribute"
RULE = ("A pipeline with symbolic attributes and one step of every context kind (and two expressions where the kind allows) is passed abstractly through to_dict and the result through from_dict: on every path that returns, every attribute "
        "must come back as itself (serialising an expression and deserialising it with the same format, str() of a string and list() of a list count as identity), every step must keep its context and all its expressions in order.  "
        "to_json must write exactly what to_dict builds, to a string or to the named file; from_json and from_json_str must hand the parsed text to from_dict.")
TRUST = ["polars.Expr.meta.serialize and polars.Expr.deserialize with the same format are inverse", "json.dump(s) and json.load(s) are inverse on the built dictionary"]

def norm(t):
    if isinstance(t, tuple): return tuple(norm(x) for x in t)
    if isinstance(t, Star): return Star(norm(t.t))
    if not isinstance(t, Op): return t
    t = Op(t.op, *[norm(x) for x in t.args])
    if t.op == "call":
        f, a, k = t.args
        if f == S.EXT("polars.Expr.deserialize") and len(a) == 1:
            fmt = dict(k).get("format", Const("binary"))
            x = a[0]
            if isinstance(x, Op) and x.op == "call" and x.args[0] in (S.EXT("io.StringIO"), S.EXT("io.BytesIO")) and len(x.args[1]) == 1: x = x.args[1][0]
            if isinstance(x, Op) and x.op == "call" and isinstance(x.args[0], Op) and x.args[0].op == "attr" and x.args[0].args[1] == "serialize":
                b = x.args[0].args[0]
                if isinstance(b, Op) and b.op == "attr" and b.args[1] == "meta" and dict(x.args[2]).get("format", Const("binary")) == fmt: return b.args[0]
        if f in (S.EXT("str"), S.EXT("bool")) and len(a) == 1: return a[0]
    if t.op in ("list", "tuple") and len(t.args) == 1 and isinstance(t.args[0], Star) and isinstance(t.args[0].t, Op) and t.args[0].t.op == "elem": return t.args[0].t.args[0]
    return t

def step(C, i, ctx, n):
    o = C.step(i, ctx)
    o.attrs["exprs"] = LList([Sym("e%d_%d" % (i, j)) for j in range(n)])
    return o

def run(ctx, rep):
    C = pipe.Classes(ctx.pkg)
    it = S.Interp(ctx.pkg, max_paths=800)
    many = {"select": 2, "with_columns": 3, "sql": 1, "filter": 1}
    steps = [step(C, i, c, many.get(c, 1)) for i, c in enumerate(C.contexts())]
    rep.count("step kinds", len(steps))
    rep.floor("step kinds", 4)
    pipeline = C.pipeline(steps)
    want = {k: norm(S.freeze(v)) for k, v in pipeline.attrs.items()}
    saved = []
    for p in it.run(C.method(C.Pipeline, "to_dict"), selfobj=pipeline):
        if p.outcome != "return":
            rep.check("Pipeline.to_dict: completes", False, "to_dict raises %s" % S.show(p.value)[:100]); continue
        saved.append((p, p.raw))
        rep.count("save paths")
    rep.floor("save paths", 1)
    n = 0
    for p, d in saved:
        for q in it.run(C.method(C.Pipeline, "from_dict"), params={"pipeline_dict": d}):
            if q.outcome != "return":
                # the catch-all "missing keywords" handler and refusals of malformed input are reachable only on a decided condition
                if not any(isinstance(c, Op) and c.op == "raises" and b for c, b in q.conds):
                    rep.check("load: completes", False if not q.conds else None, "loading what was saved raises %s" % S.show(q.value)[:120])
                continue
            n += 1
            o = q.raw
            if not isinstance(o, Obj):
                rep.undecide("Pipeline.from_dict", "does not build a pipeline object"); continue
            got = {k: norm(S.freeze(v)) for k, v in o.attrs.items()}
            for k, w in want.items():
                if k == "transforms": continue
                rep.count("attributes")
                rep.check("attribute " + k, got.get(k) == w, "after saving and loading, %s is %s" % (k, S.show(got.get(k, Const("missing")))[:80]))
            tr = o.attrs.get("transforms")
            if not isinstance(tr, LList) or tr.has_star():
                rep.undecide("steps", "not a list: %s" % S.show(S.freeze(tr))[:80]); continue
            rep.check("number of steps", len(tr.e) == len(steps), "%d of %d steps come back" % (len(tr.e), len(steps)))
            for a, b in zip(steps, tr.e):
                c = a.attrs["context"].args[1]
                rep.count("steps")
                fb = {k: norm(S.freeze(v)) for k, v in b.attrs.items()} if isinstance(b, Obj) else {}
                rep.check("step %s: kind" % c, fb.get("context") == a.attrs["context"], "a %s step is loaded as %s" % (c, S.show(fb.get("context", Const(None)))[:60]))
                rep.check("step %s: expressions" % c, fb.get("exprs") == norm(S.freeze(a.attrs["exprs"])), "the expressions of a %s step come back as %s" % (c, S.show(fb.get("exprs", Const(None)))[:120]))
    rep.count("save/load paths", n)
    rep.floor("save/load paths", 1)
    rep.floor("steps", 4)
    dicts = [norm(S.freeze(d)) for _, d in saved]
    text(C, it, rep, pipeline, dicts)

def text(C, it, rep, pipeline, dicts):
    seen = {"string": 0, "file": 0}
    for p in it.run(C.method(C.Pipeline, "to_json"), selfobj=pipeline):
        if p.outcome != "return":
            rep.undecide("Pipeline.to_json", "raises on a path"); continue
        none = any(c == Op("cmp", "==", Sym("path"), Const(None)) and b for c, b in p.conds)
        if none:
            v = p.value
            ok = isinstance(v, Op) and v.op == "call" and v.args[0] == S.EXT("json.dumps") and norm(v.args[1][0]) in dicts
            seen["string"] += 1
            rep.check("to_json: string", ok, "to_json() does not return the JSON of the whole pipeline: %s" % S.show(v)[:100])
        else:
            ds = [t for t in p.calls if t.args[0] == S.EXT("json.dump")]
            ws = [t for t in p.calls if isinstance(t.args[0], Op) and t.args[0].op == "attr" and t.args[0].args[1] in ("write", "write_text")]
            seen["file"] += 1
            ok = False
            if ds:
                a = list(ds[0].args[1]) + [x for _, x in ds[0].args[2]]
                ok = norm(a[0]) in dicts and len(a) > 1 and "path" in S.deps(a[1:])
            elif ws:
                x = ws[0].args[1][0]
                ok = isinstance(x, Op) and x.op == "call" and x.args[0] == S.EXT("json.dumps") and norm(x.args[1][0]) in dicts and "path" in S.deps(ws[0])
            rep.check("to_json: file", ok, "to_json(path) does not write the JSON of the whole pipeline to that path")
            for t in p.calls:
                if t.args[0] == S.EXT("open"):
                    mode = dict(t.args[2]).get("mode") or (t.args[1][1] if len(t.args[1]) > 1 else Const("r"))
                    rep.check("to_json: file mode", mode in (Const("w"), Const("wt"), Const("x")), "the file is opened with mode %s" % S.show(mode))
    rep.check("to_json: both forms", seen["string"] > 0 and seen["file"] > 0, "to_json no longer has both a string and a file form")
    for n, src, arg in (("from_json_str", "json.loads", "json_str"), ("from_json", None, "path")):
        m = C.method(C.Pipeline, n)
        if m is None: rep.check(n + ": exists", False, "Pipeline.%s is gone" % n); continue
        hits = 0
        it2 = S.Interp(ctx_pkg(C), max_paths=400)
        par = pipe.params(m.node)[0]
        for p in it2.run(m):
            if p.outcome != "return": continue
            for caller, callee, env, _ in p.binds:
                if callee.name == "from_dict":
                    hits += 1
                    v = env.get("pipeline_dict") or next(iter(env.values()))
                    okf = isinstance(v, Op) and v.op == "call" and v.args[0] in (S.EXT("json.loads"), S.EXT("json.load")) and S.deps(v) == {par}
                    rep.check(n + ": whole text", okf, "%s hands from_dict %s" % (n, S.show(v)[:80]))
        rep.check(n + ": loads", hits > 0, "%s does not load through from_dict" % n)

def ctx_pkg(C): return C.pkg
