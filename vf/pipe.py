"""Shared by the pipeline checks: symbolic pipeline objects and a normal form for query plans."""
from __future__ import annotations
import ast
from . import pysym as S
from .pysym import Const, Sym, Op, Star, LList, LDict, Obj, Closure, ClassRef, Interp

MOD = S.PKG + ".modeling.pipeline"
STRUCT = S.PKG + ".modeling._structures"

class Classes:
    def __init__(self, pkg):
        self.pkg = pkg
        self.M, self.T = pkg.mods[MOD], pkg.mods[STRUCT]
        self.Blueprint = self.cls("Blueprint"); self.Pipeline = self.cls("Pipeline")
        self.FitStep = self.cls("FitStep"); self.PipelineStep = self.cls("PipelineStep")
        self.PLContext = self.cls("PLContext")
    def cls(self, n):
        """the class by name, wherever the pipeline module finds it"""
        for m in (self.M, self.T):
            r = self.pkg.lookup(m, n)
            if isinstance(r, ClassRef): return r
        raise LookupError("class %s not found in %s" % (n, MOD))
    def contexts(self):
        return [x.value.value for x in self.PLContext.node.body if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant)]
    def method(self, c, n):
        m = c.method(n)
        return None if m is None else Closure(m, c.mod, cls=c)
    def fit(self, i): return Obj(self.FitStep, {"func": Sym("f%d" % i), "cols": Sym("c%d" % i), "exclude": Sym("ex%d" % i)})
    def step(self, i, ctx): return Obj(self.PipelineStep, {"context": Op("enum", "PLContext", ctx), "exprs": LList([Sym("e%d" % i)])})
    def blueprint(self, steps):
        return Obj(self.Blueprint, {n: Sym("self." + n) for n in ("_df", "name", "target", "feature_names_in_", "exclude", "lowercase", "uppercase")} | {"_steps": LList(steps)})
    def pipeline(self, steps, **kw):
        a = {n: Sym("self." + n) for n, _ in self.Pipeline.fields()} | {"transforms": LList(steps)}
        a.update(kw)
        return Obj(self.Pipeline, a)

def methods(c): return [x for x in c.node.body if isinstance(x, ast.FunctionDef)]
def params(fn): return [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]

def unwrap(t):
    """[X] -> X, [*elem(X)] -> X, list(X) -> X: one expression, or a collection of them, given as a list or not"""
    while True:
        if isinstance(t, Op) and t.op in ("list", "tuple") and len(t.args) == 1: t = t.args[0]
        elif isinstance(t, Star): t = t.t
        elif isinstance(t, Op) and t.op == "elem": t = t.args[0]
        elif isinstance(t, Op) and t.op == "call" and isinstance(t.args[0], Op) and t.args[0].op == "ext" and t.args[0].args[0] in ("list", "tuple") and len(t.args[1]) == 1: t = t.args[1][0]
        elif isinstance(t, Op) and t.op == "sub" and t.args[1] == Const(0): t = t.args[0]
        else: return t

_EVAL = ("lazy", "collect", "clone", "cache", "as_")
def plan(t):
    """(root, [(method, argument term)...], collected?): a frame as the operations applied to it, evaluation steps removed"""
    ops, col = [], None
    while isinstance(t, Op) and t.op == "call":
        f = t.args[0]
        if isinstance(f, Op) and f.op == "attr":
            m, base = f.args[1], f.args[0]
            if m in _EVAL:
                if col is None: col = m == "collect"
                t = base; continue
            if m == "execute":
                c = base
                if isinstance(c, Op) and c.op == "call":
                    kw = dict(c.args[2])
                    inner = kw.get("df") or (c.args[1][0] if c.args[1] else None)
                    if isinstance(inner, Op) and inner.op == "dict": inner = inner.args[0][1]
                    if inner is not None:
                        if col is None: col = False
                        ops.append(("sql", unwrap(t.args[1][0]) if t.args[1] else None)); t = inner; continue
                break
            if col is None: col = False
            a = t.args[1]
            ops.append((m, unwrap(a[0]) if len(a) == 1 and not t.args[2] else Op("args", a, t.args[2])))
            t = base; continue
        break
    return t, ops[::-1], bool(col)

def plan_key(t):
    r, ops, _ = plan(t)
    return r, tuple(ops)

def norm_frames(t):
    """a term with frame evaluation steps (lazy/collect) removed everywhere"""
    if isinstance(t, Star): return Star(norm_frames(t.t))
    if isinstance(t, tuple): return tuple(norm_frames(x) for x in t)
    if not isinstance(t, Op): return t
    if t.op == "call" and isinstance(t.args[0], Op) and t.args[0].op == "attr" and t.args[0].args[1] in _EVAL: return norm_frames(t.args[0].args[0])
    return Op(t.op, *[norm_frames(x) for x in t.args])
