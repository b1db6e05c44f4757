from .. import pysym as S, pipe
from ..pysym import Const, Sym, Op, Star, LList, Obj
TECHNIQUE = "abstract interpretation of Pipeline.transform to a query-plan normal form"
RULE = ("Pipeline.transform is evaluated abstractly on a pipeline holding one step of each context kind, for every setting of its switches.  In plan normal form (lazy/collect removed) the result must be: the input frame, the casing rule, "
        "every step once in order through the frame method of its kind with all its expressions, then the recorded output names when asked for; separate must return all-but-target and target; the result must be lazy exactly when asked for. "
        "With ensure_features_in every path that proceeds must have found no missing and no extra column.  The blueprint's constructor must apply the same casing rule to the fitting data.")
TRUST = ["polars lazy plans compute what their operations say"]
METHOD = {"select": "select", "with_columns": "with_columns", "filter": "filter", "sql": "sql"}

def run(ctx, rep):
    C = pipe.Classes(ctx.pkg)
    it = S.Interp(ctx.pkg, max_paths=800)
    m = C.method(C.Pipeline, "transform")
    ctxs = C.contexts()
    def mk(order):
        out = []
        for i, c in enumerate(order):
            o = C.step(i, c)
            if c in ("select", "with_columns"): o.attrs["exprs"] = LList([Sym("e%d" % i), Sym("g%d" % i)])
            out.append(o)
        return out
    order = list(ctxs) + list(reversed(ctxs))
    steps = mk(order)
    exp = []
    for i, c in enumerate(order):
        rep.count("steps")
        exp.append((METHOD.get(c, c), Op("list", Sym("e%d" % i), Sym("g%d" % i)) if c in ("select", "with_columns") else Sym("e%d" % i)))
    rep.floor("steps", 8)
    all_ = Op("call", S.EXT("polars.all"), (), ())
    def exclude(t): return Op("call", Op("attr", all_, "exclude"), (t,), ())
    casing = {}
    B = Const
    for lower, upper in ((False, False), (True, False), (False, True)):
        casing[(lower, upper)] = None
    for (lower, upper) in list(casing):
        init = [p for p in it.run(C.method(C.Blueprint, "__init__"), selfobj=Obj(C.Blueprint, {}), params={"lowercase": B(lower), "uppercase": B(upper), "exclude": B(None), "target": B(None)}) if p.outcome == "return"]
        ks = {pipe.plan_key(S.freeze(p.selfobj.attrs["_df"])) for p in init if "_df" in p.selfobj.attrs}
        if len(ks) == 1:
            r, ops = next(iter(ks))
            casing[(lower, upper)] = ops
            want = () if not (lower or upper) else ("to_lowercase",) if lower else ("to_uppercase",)
            names = tuple(x.args[1] for m_, t in ops for x in S.walk(t) if isinstance(x, Op) and x.op == "attr" and x.args[1] in ("to_lowercase", "to_uppercase"))
            rep.check("fitting data casing %s/%s" % (lower, upper), r == Sym("df") and names == want, "with lowercase=%s, uppercase=%s the fitting data is %s" % (lower, upper, ops))
        else: rep.undecide("fitting data casing %s/%s" % (lower, upper), "not one plan")
    n = 0
    for (lower, upper), cas in casing.items():
      for eout in (True, False):
        for sep in (False, True):
            for lazy in (False, True):
                po = C.pipeline(steps, lowercase=B(lower), uppercase=B(upper), ensure_features_in=B(False), ensure_features_out=B(eout), target=Sym("self.target"))
                for p in it.run(m, selfobj=po, params={"return_lazy": B(lazy), "separate": B(sep)}):
                    none = any(c == Op("cmp", "==", Sym("self.target"), Const(None)) and b for c, b in p.conds)
                    key = "transform(lower=%s,upper=%s,features_out=%s,separate=%s,lazy=%s)" % (lower, upper, eout, sep, lazy)
                    if p.outcome == "raise":
                        rep.check(key + ": raises", sep and none, "raises %s" % S.show(p.value)[:80]); continue
                    if p.outcome != "return": continue
                    n += 1
                    rep.check(key + ": no target", not (sep and none), "separate without a target does not raise")
                    want = list(cas or ()) + exp + ([("select", Sym("self.feature_names_out_"))] if eout else [])
                    v = p.value
                    if sep:
                        ok = isinstance(v, Op) and v.op == "tuple" and len(v.args) == 2
                        rep.check(key + ": pair", ok, "does not return a pair")
                        if not ok: continue
                        for x, tail in ((v.args[0], ("features",)), (v.args[1], ("target",))):
                            r, ops, col = pipe.plan(x)
                            last = ops[-1] if ops else (None, None)
                            good = last in (("select", exclude(Sym("self.target"))), ("drop", Sym("self.target"))) if tail[0] == "features" else last == ("select", Sym("self.target"))
                            rep.check(key + ": " + tail[0], r == Sym("df") and good and same(ops[:-1], want), "the %s part is %s" % (tail[0], diff(ops[:-1], want) or last))
                            rep.check(key + ": %s laziness" % tail[0], col == (not lazy), "collected=%s with return_lazy=%s" % (col, lazy))
                    else:
                        r, ops, col = pipe.plan(v)
                        rep.check(key + ": plan", r == Sym("df") and same(ops, want), "the plan differs: %s" % diff(ops, want))
                        rep.check(key + ": laziness", col == (not lazy), "collected=%s with return_lazy=%s" % (col, lazy))
    rep.count("plans", n)
    rep.floor("plans", 12)
    ensure(C, it, rep, m)

def same(ops, want): return [(a, pipe.norm_frames(b)) for a, b in ops] == want
def diff(ops, want):
    for i in range(max(len(ops), len(want))):
        a = ops[i] if i < len(ops) else None
        b = want[i] if i < len(want) else None
        if a != b: return "operation %d is %s, expected %s" % (i, a and (a[0], S.show(a[1])[:60] if a[1] is not None else None), b and (b[0], S.show(b[1])[:60]))
    return ""

def ensure(C, it, rep, m):
    """both kinds of mismatch are refused"""
    po = C.pipeline([], lowercase=Const(False), uppercase=Const(False), ensure_features_in=Const(True), ensure_features_out=Const(False))
    ps = it.run(m, selfobj=po, params={"separate": Const(False)})
    raised = [p for p in ps if p.outcome == "raise"]
    rep.check("ensure_features_in: refuses", bool(raised), "ensure_features_in never raises")
    F = "self.feature_names_in_"
    for p in ps:
        if p.outcome != "return": continue
        rep.count("accepting paths")
        # accepting conditions must involve both directions of the comparison
        dirs = set()
        for c, b in p.conds:
            for x in S.walk(c):
                if isinstance(x, Op) and x.op == "filtered":
                    for g in x.args[1:]:
                        if isinstance(g, Op) and g.op == "cmp" and g.args[0] in ("not in", "in"):
                            if F in S.deps(g.args[1]) and "df" in S.deps(g.args[2]): dirs.add("missing")
                            if "df" in S.deps(g.args[1]) and F in S.deps(g.args[2]): dirs.add("extra")
            if isinstance(c, Op) and c.op == "cmp" and c.args[0] == "<" and c.args[1] == Const(0) and isinstance(c.args[2], Op) and c.args[2].op == "len":
                rep.check("ensure_features_in: polarity", not b, "ensure_features_in accepts data with mismatching columns")
            if isinstance(c, Op) and c.op == "cmp" and c.args[0] == "==" and b and {"df", F} <= S.deps(c): dirs |= {"missing", "extra"}
            for x in S.walk(c):
                if isinstance(x, Op) and x.op in ("bin",) and x.args[0] in ("-", "^") and {"df", F} <= S.deps(x):
                    if x.args[0] == "^": dirs |= {"missing", "extra"}
                    elif F in S.deps(x.args[1]): dirs.add("missing")
                    else: dirs.add("extra")
                if isinstance(x, Op) and x.op == "call" and isinstance(x.args[0], Op) and x.args[0].op == "attr" and x.args[0].args[1] in ("difference", "symmetric_difference", "issubset", "issuperset") and {"df", F} <= S.deps(x):
                    a = S.deps(x.args[0].args[0])
                    if x.args[0].args[1] == "symmetric_difference": dirs |= {"missing", "extra"}
                    elif (x.args[0].args[1] in ("difference", "issubset")) == (F in a): dirs.add("missing")
                    else: dirs.add("extra")
        for d in ("missing", "extra"):
            rep.check("ensure_features_in: %s columns refused" % d, d in dirs, "ensure_features_in accepts data without having looked for %s columns" % d)
    rep.floor("accepting paths", 1)
