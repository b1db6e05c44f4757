"""Comparison of a package function with its reference definition (spec/ref/*.py), path by path.

Both are evaluated abstractly by the same interpreter on the same unknowns, once per combination of documented option
values (all of them are enumerated; free-form parameters stay unknown).  Every path of the implementation that returns
must have a normal form equal to that of some reference path taken under compatible conditions, and every reference
path that returns must be matched by some implementation path."""
from __future__ import annotations
import ast, itertools, math, os, re
from . import pysym as S
from .pysym import Const, Sym, Op, Star, LList
from .algebra import Algebra, R, F

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, "spec", "ref")

class RefModule(S.Module): pass

def load(name):
    return S.Module("ref." + name, os.path.join(REF, name + ".py"))

MAXV = 4096
def variants(ann, name):
    """[(value, {sym: types})] a parameter ranges over"""
    out = []
    parts, d, cur = [], 0, ""
    for ch in ann.strip():
        d += ch in "[{(" ; d -= ch in "]})"
        if ch == "|" and d == 0: parts.append(cur.strip()); cur = ""
        else: cur += ch
    parts.append(cur.strip())
    opts, types = [], []
    for p in parts:
        if p.startswith("{"): opts += [(S.to_value(v), {}) for v in ast.literal_eval("[" + p[1:-1] + "]")]
        elif p.startswith("dict["):
            for k in p[5:-1].split(",")[1].split("|"):
                a, b, x, y = (Sym("%s_%s" % (name, z)) for z in ("k0", "k1", "v0", "v1"))
                opts.append((S.LDict([(a, x), (b, y)]), {a: {"str"}, b: {"str"}, x: {k.strip()}, y: {k.strip()}}))
        elif p == "bool": opts += [(Const(True), {}), (Const(False), {})]
        elif p == "None": opts.append((Const(None), {}))
        elif p == "any": types.append(None)
        elif p == "dtype": opts += [(S.EXT("polars." + d), {}) for d in ("String", "UInt8", "UInt16", "UInt32", "UInt64", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Boolean")]
        elif p.startswith("list["):
            k = p[5:-1]
            opts.append((LList([Sym(name + "_0"), Sym(name + "_1")]), {Sym(name + "_0"): {k}, Sym(name + "_1"): {k}}))
        else: types.append(p)
    tv = [(Sym(name), {Sym(name): {t}} if t else {}) for t in types]
    if opts and tv: return "opt", opts + tv
    return ("opt", opts) if opts else ("type", tv)

def element(name, t):
    """an unknown of type t (or a pair tuple[a,b] of unknowns)"""
    if t.startswith("tuple["):
        es = [element("%s_%d" % (name, i), x.strip()) for i, x in enumerate(t[6:-1].split(","))]
        return LList([e for e, _ in es], kind="tuple"), {k: v for _, d in es for k, v in d.items()}
    return Sym(name), ({Sym(name): {t}} if t != "any" else {})

def combos(fn):
    """every combination of option values; alternatives of a parameter's type are cycled through together"""
    a = fn.args
    dims, tdims = [], []
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == "self": continue
        ann = x.annotation.value if isinstance(x.annotation, ast.Constant) else "any"
        kind, vs = variants(ann, x.arg)
        (dims if kind == "opt" else tdims).append((x.arg, vs))
    if a.vararg:
        k = a.vararg.annotation.value if isinstance(a.vararg.annotation, ast.Constant) else "any"
        ts = [t.strip() for t in k.split("|")]
        n = a.vararg.arg
        vs = []
        for t in ts:
            (e0, t0), (e1, t1) = element(n + "_0", t), element(n + "_1", t)
            vs.append((LList([e0, e1], kind="tuple"), {**t0, **t1}))
        tdims.append(("*" + n, vs))
        dims.append(("**" + n, [(2, {}), (1, {})]))
    nt = max([len(v) for _, v in tdims] or [1])
    for opt in itertools.product(*[v for _, v in dims]):
        for i in range(nt):
            params, typ = {}, {}
            cut = None
            for (n, _), (v, t) in zip(dims, opt):
                if n.startswith("**"): cut = v; continue
                params[n] = v; typ.update(t)
            for n, vs in tdims:
                v, t = vs[i % len(vs)]
                if n.startswith("*"):
                    params[n[1:]] = LList(v.e[:cut], kind="tuple"); typ.update(t)
                else: params[n] = v; typ.update(t)
            yield params, typ

def describe(params, typ):
    return ", ".join("%s=%s" % (k, S.show(S.freeze(v)) if not isinstance(v, Sym) else "<%s>" % "/".join(sorted(typ.get(v, {"any"})))) for k, v in sorted(params.items()))

class Compare:
    def __init__(self, pkg, model=None, max_paths=400):
        self.pkg, self.A, self.model = pkg, Algebra(), model
        self.I = S.Interp(pkg, max_paths=max_paths)
        self.J = S.Interp(pkg, max_paths=max_paths, opaque=self.I.opaque)
        if model is not None: self.I.model = model; self.J.model = model
    def paths(self, I, clo, params, typ, selfobj=None):
        def init(i): i.typ = {k: set(v) for k, v in typ.items()}
        names = [x.arg for x in clo.node.args.posonlyargs + clo.node.args.args + clo.node.args.kwonlyargs]
        va = clo.node.args.vararg.arg if clo.node.args.vararg else None
        ps = {k: v for k, v in params.items() if k in names or k == va}
        missing = [k for k in params if k not in ps]
        # parameters of the implementation the reference does not mention keep their defaults
        a = clo.node.args
        pos = a.posonlyargs + a.args
        sc = S.Scope({}, clo)
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x.arg not in ps:
                I.star, I.cur, I.line, I.depth = 0, [clo.qual], 0, 0
                I.filters, I.nodes = [], []
                I.calls, I.sites, I.facts, I.dom, I.notin, I.nottyp, I.conds, I.pre, I.pos, I.taken, I.binds, I.inlined = [], [], {}, {}, {}, {}, [], [], 0, [], [], set()
                I.typ = {}
                ps[x.arg] = I.ev(d, sc)
        if a.kwarg and a.kwarg.arg not in ps: ps[a.kwarg.arg] = S.LDict([])
        return I.run(clo, params=ps, init=init, selfobj=selfobj), missing
    def key_conds(self, P):
        kc = P.__dict__.get("_kc")
        if kc is None:
            self.A.set_typ({})
            kc = []
            for t, b in P.conds:
                k = self.A.nf(t)
                kc.append((k if b else self.A.neg(k), t, b))
            P.__dict__["_kc"] = kc
        return kc
    def compatible(self, P, Q):
        p, q = {k for k, _, _ in self.key_conds(P)}, {k for k, _, _ in self.key_conds(Q)}
        for k in p:
            if self.A.neg(k) in q: return False
        for t, d in P.dom.items():
            if t in Q.dom and not (d & Q.dom[t]): return False
        for t, d in P.typ.items():
            if t in Q.typ and not (d & Q.typ[t]): return False
        b = {}
        for k in p | q:
            if k[0] in ("lt", "le", "eq"):
                r = self.A.unkey(k[1])
                if len(r.d) != 1 or r.d != {(): 1}: continue
                ms = [m for m in r.n if m]
                if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1: continue
                a, c = r.n[ms[0]], r.n.get((), 0)
                v = -c / a
                lo, hi = b.get(ms[0], ((None, False), (None, False)))
                if k[0] == "eq" or a < 0:       # x > v or x >= v
                    s = k[0] == "lt"
                    if lo[0] is None or v > lo[0] or (v == lo[0] and s): lo = (v, s)
                if k[0] == "eq" or a > 0:
                    s = k[0] == "lt"
                    if hi[0] is None or v < hi[0] or (v == hi[0] and s): hi = (v, s)
                b[ms[0]] = (lo, hi)
        for lo, hi in b.values():
            if lo[0] is not None and hi[0] is not None and (lo[0] > hi[0] or lo[0] == hi[0] and (lo[1] or hi[1])): return False
        return True
    def interval(self, k):
        """(monomial, kind, bound) of a comparison of one quantity with a number: kinds < <= > >= = !="""
        m = self.monomials(("eq", k[1])) if k[0] in ("lt", "le", "eq", "ne") else None
        if m is None: return None
        r = self.A.unkey(k[1])
        a, c = r.n[m], r.n.get((), 0)
        v = -c / a
        if k[0] in ("eq", "ne"): return m, "=" if k[0] == "eq" else "!=", v
        return m, ("<" if k[0] == "lt" else "<=") if a > 0 else (">" if k[0] == "lt" else ">="), v
    def overlap(self, P, Q, typ):
        """an input (as text) that certainly takes both paths, or None: the conditions only one of them has all bound free numeric parameters"""
        kp, kq = {k: t for k, t, _ in self.key_conds(P)}, {k: t for k, t, _ in self.key_conds(Q)}
        rest = [(k, t) for k, t in list(kp.items()) + list(kq.items()) if not (k in kp and k in kq)]
        if not rest: return None
        free, bound = {}, {}
        for k, t in rest:
            i = self.interval(k)
            if i is None: return None
            free[i[0]] = S.deps(t)
        syms = set()
        for m, d in free.items():
            a = m[0][0]
            if not (isinstance(a, tuple) and a[0] == "sym" and len(d) == 1 and set(typ.get(Sym(a[1]), ())) in ({"int"}, {"float"}, {"int", "float"})): return None
            syms.add(a[1]); bound[m] = []
        for k, t in list(kp.items()) + list(kq.items()):
            i = self.interval(k)
            if i is not None and i[0] in free: bound[i[0]].append(i[1:])
            elif S.deps(t) & syms: return None
        out = []
        for m, bs in bound.items():
            integer = set(typ.get(Sym(m[0][0][1]), ())) == {"int"}
            vs = sorted({v for _, v in bs})
            cand = [F(0)] + [x for v in vs for x in ((v, F(math.floor(v)) - 1, F(math.floor(v)), F(math.ceil(v)), F(math.ceil(v)) + 1) if integer else (v, v - 1, v + 1))]
            if not integer: cand += [(a + b) / 2 for a, b in zip(vs, vs[1:])]
            ok = lambda x: all({"<": x < v, "<=": x <= v, ">": x > v, ">=": x >= v, "=": x == v, "!=": x != v}[o] for o, v in bs)
            w = [x for x in cand if (not integer or x.denominator == 1) and ok(x)]
            if not w: return None
            out.append("%s = %s" % (m[0][0][1], w[0] if w[0].denominator == 1 else float(w[0])))
        return ", ".join(out)
    def boundaries(self, rep, name, label, params, typ, Ps, Qs):
        """paths of the two sides that one input certainly takes together must agree"""
        bad = None
        words = {k for q in Qs for k, _, _ in self.key_conds(q)}
        words |= {self.A.neg(k) for k in words}
        for p in Ps:
            for q in Qs:
                if p.outcome == q.outcome == "raise" or not self.compatible(p, q): continue
                w = self.overlap(p, q, typ)
                if w is None and all(k in words for k, _, _ in self.key_conds(p)): w = "the same tests"
                if w is None: continue
                if p.outcome != q.outcome: bad = "%s with %s %s, its definition %s" % (label, w, "returns" if p.outcome == "return" else "raises", "returns" if q.outcome == "return" else "raises")
                else:
                    e, a, b = self.equal(p, q, typ)
                    if not e: bad = "%s with %s builds %s, its definition is %s" % (label, w, a[:700], b[:700])
                if bad: break
            if bad: break
        rep.check("%s:%s:boundary" % (name, short_params(params, typ)), bad is None, bad)

    def equal(self, P, Q, typ):
        t = {k: set(v) for k, v in typ.items()}
        for x in (P, Q):
            for k, v in x.typ.items():
                t[k] = (t[k] & set(v)) if k in t and t[k] & set(v) else set(v)
        self.A.set_typ(t)
        va, vb = self.A.q(P.value), self.A.q(Q.value)
        return self.A.eq(va, vb), self.A.show(va), self.A.show(vb)

    def refusals(self, rep, name, label, params, typ, Ps, Qs):
        """inputs the reference refuses are refused, inputs it accepts are not: decided only where both sides test the same thing"""
        for q in Qs:
            if q.outcome != "raise" or not q.conds: continue
            last = q.conds[-1][0]
            D = S.deps(last)
            if not D: continue
            hit = None
            for p in Ps:
                if p.outcome != "return" or not self.compatible(p, q): continue
                if any(S.deps(t) & D for t, _ in p.conds) or any(S.deps(t) & D for t in p.dom): continue
                hit = p; break
            rep.check("%s:%s:refuses %s" % (name, short_params(params, typ), S.show(last)[:60]), hit is None, "%s is accepted although %s is to be refused: no path tests it" % (label, S.show(last)[:200]))
        for p in Ps:
            if p.outcome != "raise" or not p.conds: continue
            pk = self.key_conds(p)
            k = pk[-1][0]
            if k[0] not in ("lt", "le", "eq"): continue
            m = self.monomials(k)
            if m is None: continue
            hit = None
            for q in Qs:
                if q.outcome != "return" or not self.compatible(p, q): continue
                if any(self.monomials(k2) == m for k2, _, _ in self.key_conds(q)): hit = q; break
            if hit is not None: rep.check("%s:%s:accepts" % (name, short_params(params, typ)), False, "%s is refused when %s, which its definition accepts" % (label, S.show(p.conds[-1][0])[:200]))
    def monomials(self, k):
        if k[0] not in ("lt", "le", "eq"): return None
        r = self.A.unkey(k[1])
        if len(r.d) != 1 or r.d != {(): 1}: return None
        ms = [m for m in r.n if m]
        return ms[0] if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 else None

    def function(self, rep, impl, ref, name, objs=(None, None), see=None):
        """compare closure impl with reference closure ref"""
        n = 0
        for params, typ in combos(ref.node):
            n += 1
            label = "%s(%s)" % (name, describe(params, typ))
            Ps, missing = self.paths(self.I, impl, params, typ, selfobj=objs[0])
            if missing:
                rep.fail("%s:param:%s" % (name, ",".join(missing)), "%s: documented parameters %s do not exist any more" % (name, ", ".join(missing)))
                return n
            Qs, _ = self.paths(self.J, ref, params, typ, selfobj=objs[1])
            if see is not None: Ps, Qs = [see(p) for p in Ps], [see(q) for q in Qs]
            if self.I.truncated or any(p.outcome == "unknown" for p in Ps + Qs):
                rep.undecide(label, "paths not enumerated completely"); continue
            pr, qr = [p for p in Ps if p.outcome == "return"], [q for q in Qs if q.outcome == "return"]
            matched, bad = set(), False
            for p in pr:
                ok, seen = False, None
                comp = [q for q in qr if self.compatible(p, q)]
                for q in comp:
                    e, a, b = self.equal(p, q, typ)
                    if e: ok = True; matched.add(id(q))
                    else: seen = (a, b)
                if not comp:
                    rep.undecide(label, "no comparable reference path"); continue
                bad |= not ok
                rep.check("%s:%s:formula" % (name, short_params(params, typ)), ok, None if ok else "%s builds %s, its definition is %s" % (label, seen[0][:1500], seen[1][:1500]))
            if not bad:
                self.refusals(rep, name, label, params, typ, Ps, Qs)
                self.boundaries(rep, name, label, params, typ, Ps, Qs)
            for q in () if bad else qr:
                if id(q) in matched: continue
                comp = [p for p in Ps if self.compatible(p, q)]
                if comp: rep.check("%s:%s:case" % (name, short_params(params, typ)), False, "%s: no path computes the documented case %s" % (label, self.A.show(self.A.q(q.value))[:1000]))
        return n

def short_params(params, typ):
    return ",".join("%s=%s" % (k, v.v) if isinstance(v, Const) else "%s:%s" % (k, "/".join(sorted(typ.get(v, ["any"])))) if isinstance(v, Sym) else k for k, v in sorted(params.items()))

READS = {"is_fit", "has_bias", "clear", "keys", "items", "values", "copy", "append"}

def self_attrs(cls):
    return {n.attr for n in ast.walk(cls.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and cls.method(n.attr) is None}

def effects(P):
    """calls on what the object holds, and printing: everything the method does besides returning"""
    out = []
    for t in P.calls:
        f = t.args[0]
        if f == S.EXT("print"): out.append(t)
        elif isinstance(f, Op) and f.op == "attr" and f.args[1] not in READS:
            r = f.args[0]
            if isinstance(r, Sym) and r.name.startswith("self.") or isinstance(r, Op) and r.op == "call" and isinstance(r.args[0], Op) and r.args[0].op == "ext" and r.args[0].args[0].split(".")[-1][:2] == "Py": out.append(t)
    return tuple(out)

def observe(P):
    """a path's result with the object's state afterwards and the calls made on what it holds"""
    if P.outcome != "return" or getattr(P, "seen", False): return P
    v, st = P.value, ()
    o = P.raw if isinstance(P.raw, S.Obj) else None
    if P.raw is P.selfobj and o is not None: v = Const("<self>")
    elif o is not None:
        v = Const("<new object>"); st = tuple(Op("attr_is", k, S.freeze(x)) for k, x in sorted(o.attrs.items()))
    if P.selfobj is not None: st = tuple(Op("attr_is", k, S.freeze(x)) for k, x in sorted(P.selfobj.attrs.items()) if S.freeze(x) != Sym("self." + k))
    P.value = Op("tuple", v, Op("tuple", *st), Op("tuple", *effects(P)))
    P.seen = True
    return P

def run_classes(ctx, rep, name, where, cmp, only=None, see=None):
    """compare every method of the reference classes of spec/ref/<name>.py with the package class of the same name"""
    m = load(name)
    for rc in [x for x in m.tree.body if isinstance(x, ast.ClassDef)]:
        rcls = S.ClassRef(rc, m)
        icls = ctx.pkg.lookup(ctx.pkg.mods[where], rc.name) if where in ctx.pkg.mods else None
        if not isinstance(icls, S.ClassRef):
            rep.fail("%s:missing" % rc.name, "%s.%s does not exist any more" % (where, rc.name)); continue
        rep.count("classes")
        attrs = self_attrs(icls) | self_attrs(rcls)
        obj = lambda c, init: S.Obj(c, {} if init else {a: Sym("self." + a) for a in attrs})
        for fn in [x for x in rc.body if isinstance(x, ast.FunctionDef) and not (x.name.startswith("_") and not x.name.startswith("__"))]:
            if only is not None and fn.name not in only: continue
            im = icls.method(fn.name)
            if im is None:
                rep.fail("%s.%s:missing" % (rc.name, fn.name), "%s.%s does not exist any more" % (rc.name, fn.name)); continue
            ini = fn.name == "__init__"
            decs = [getattr(d, "id", "") for d in fn.decorator_list]
            own = "classmethod" not in decs and "staticmethod" not in decs
            n = cmp.function(rep, S.Closure(im, icls.mod, cls=icls), S.Closure(fn, m, cls=rcls), "%s.%s" % (rc.name, fn.name),
                             objs=(obj(icls, ini), obj(rcls, ini)) if own else (None, None), see=see or observe)
            rep.count("methods"); rep.count("option combinations", n)

def run_module(ctx, rep, name, where, cmp=None, skip=()):
    """compare every reference function of spec/ref/<name>.py with the package function of the same name"""
    m = load(name)
    C = cmp or Compare(ctx.pkg)
    total = 0
    for fn, node in m.functions().items():
        if fn.startswith("_") or fn in skip: continue
        impl = find(ctx.pkg, where, fn)
        if impl is None:
            rep.fail("%s:missing" % fn, "%s.%s does not exist any more" % (where, fn)); continue
        k = C.function(rep, impl, S.Closure(node, m), fn)
        total += k
        rep.count("functions"); rep.count("option combinations", k)
    return total

def find(pkg, where, fn):
    v = pkg.lookup(pkg.mods[where], fn) if where in pkg.mods else None
    if isinstance(v, S.Closure): return v
    for mn, m in sorted(pkg.mods.items()):
        if fn in m.functions(): return S.Closure(m.functions()[fn], m)
    return None
