"""Normal forms of MIR summaries.

A function is summarised by msym as a set of paths (conditions, outcome).  Here the set becomes a decision diagram whose
tests and leaves are canonical: closures are replaced by the normal form of their body on bound variables, loop variables by
a hash of their recurrence (initial value and transitions, found by colour refinement, so names and order of declaration do
not matter), arithmetic by a rational normal form over its atoms, messages by nothing.  Two functions with equal normal
forms compute the same value on every input, up to rounding and re-association of arithmetic."""
from __future__ import annotations
import os, hashlib, re
from fractions import Fraction
from . import msym
from .msym import T, mk, walk, order, integer, Interp, Frame, End, NONE, some

class TooBig(Exception): pass

_ARITH = {"Add", "Sub", "Mul", "Div"}
_LIM = 400

def is_num(t): return t.k in ("int", "float")

# ---------------------------------------------------------------------------------------- polynomials
_store = re.compile(r"^\(\*_(\d+)\) = (?!\[)")
class Poly(dict):
    """monomial (tuple of (atom, exponent), sorted) -> Fraction"""

def _padd(a, b, s=1):
    r = Poly(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    if len(r) > _LIM: raise TooBig()
    return r
def _mono_mul(m, n):
    d = dict(m)
    for a, e in n:
        x = d.get(a, 0) + e
        if x: d[a] = x
        else: d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda p: order(p[0])))
def _pmul(a, b):
    r = Poly()
    if len(a) * len(b) > _LIM: raise TooBig()
    for m, c in a.items():
        for n, d in b.items():
            k = _mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r

class NF:
    def __init__(self, prog, world, opaque=(), max_paths=600, rounds=6, erase32=False, inline=None):
        self.prog, self.w = prog, world
        self.opaque, self.max_paths, self.rounds, self.erase32, self.inline = set(opaque), max_paths, rounds, erase32, inline
        self._lam, self._canon, self.recs, self._free, self._runs = {}, {}, {}, {}, {}
        self._enum = None
        self.marks = False
        self.seen = None      # a list: every path run is kept in it
    def interp(self):
        I = Interp(self.prog, self.w, opaque=self.opaque, max_paths=self.max_paths, inline=self.inline)
        if self._enum is not None: I._enum = self._enum
        return I
    # ------------------------------------------------------------ running
    def run_fn(self, fn, args=None, post=False):
        """post: what the arguments taken mutably hold in the end is part of the outcome"""
        I = self.interp()
        if post and any(re.match(r"^&('\w+ )?mut ", t) for _, t in fn.args):
            args = args or [mk("arg", fn.canon, i) for i, _ in fn.args]
            def go():
                fr = Frame(None, "env")
                xs = []
                for i, ((_, t), a) in enumerate(zip(fn.args, args)):
                    if re.match(r"^&('\w+ )?mut ", t): fr.loc[i] = a; a = mk("ref", fr, i, ())
                    xs.append(a)
                start = dict(fr.loc)
                r = I.snapshot(I.call_fn(fn, xs, "top"))
                ch = tuple(mk("post", i, I.snapshot(fr.loc[i])) for i in sorted(start) if fr.loc[i] is not start[i])
                return mk("tuple", r, *ch) if ch else r
            for _ in range(6):
                ps = I._explore(go)
                if I.truncated or not I._refine(ps): break
        else: ps = I.run(fn, args)
        self._enum = I._enum
        if I.truncated: raise TooBig(fn.canon)
        if self.seen is not None: self.seen.append((fn.canon, ps))
        return ps
    def run_value(self, f, args, facts=None):
        """paths of applying the function value f; captured `&mut` cells become fresh variables, their final values are part of the outcome"""
        I = self.interp()
        box = {}
        def go():
            fr = Frame(None, "env")
            box["f"], box["n"] = fr, 0
            def env(t):
                if isinstance(t, T):
                    if t.k == "cell":
                        i = box["n"]; box["n"] += 1
                        fr.loc[i] = t.a[0]
                        return mk("ref", fr, i, ())
                    if t.k == "closure": return mk("closure", t.a[0], tuple(env(x) for x in t.a[1]))
                return t
            g = env(f)
            start = {i: fr.loc[i] for i in fr.loc}
            r = I.apply(g, list(args), "lam")
            r = I.snapshot(r)
            ch = tuple(mk("post", i, I.snapshot(fr.loc[i])) for i in sorted(start) if fr.loc[i] is not start[i])
            return mk("tuple", r, *ch) if ch else r
        for _ in range(6):
            ps = I._explore(go, facts)
            if I.truncated: break
            if not I._refine(ps): break
        self._enum = I._enum
        if I.truncated: raise TooBig("closure")
        if self.seen is not None: self.seen.append(("closure", ps))
        return ps
    # ------------------------------------------------------------ summaries
    def summary(self, fn, args=None):
        """decision diagram of a function"""
        return self.of_paths(self.run_fn(fn, args), 0)
    def of_paths(self, ps, depth, sub=None):
        sub = self.refine_loops(ps, depth, sub)
        items = []
        for p in ps:
            if p.outcome in ("dead", "back"): continue
            if p.outcome == "unknown": raise TooBig("unknown path")
            v = mk("panic") if p.outcome == "panic" else self.canon(p.value, depth, sub)
            items.append((self.conds(p.conds, depth, sub), v))
        return self.bdd(items)
    def conds(self, conds, depth, sub):
        out = {}
        for c, v in conds:
            k, v = self.cond(self.canon(c, depth, sub), v)
            if k.k == "bool": 
                if k.a[0] is not v: return None
                continue
            if k in out and out[k] != v: return None
            out[k] = v
        return out
    def cond(self, c, v):
        while c.k == "not": c, v = c.a[0], not v
        if c.k == "bin" and c.a[0] == "Le" and isinstance(v, bool): c, v = mk("bin", "Lt", c.a[2], c.a[1]), not v
        return c, v
    def bdd(self, items):
        items = [(c, v) for c, v in items if c is not None]
        memo = {}
        count = [0]
        def build(its):
            count[0] += 1
            if count[0] > 20000: raise TooBig("diagram")
            if not its: return None
            vs = {v for _, v in its}
            if len(vs) == 1: return next(iter(vs))
            cs = set()
            for c, _ in its: cs |= c.keys()
            if not cs: 
                return mk("ambiguous", *sorted(vs, key=order))
            c = min(cs, key=order)
            vals = []
            for d, _ in its:
                if c in d and d[c] not in vals: vals.append(d[c])
            if set(vals) <= {True, False}: vals = [True, False]
            arms = []
            for v in sorted(vals, key=str):
                sub = [({k: x for k, x in d.items() if k is not c}, r) for d, r in its if c not in d or d[c] == v]
                b = build(sub)
                if b is not None: arms.append((v, b))
            if not arms: return None
            if len({id(b) for _, b in arms}) == 1: return arms[0][1]
            return mk("case", c, tuple(mk("arm", str(v), b) for v, b in arms))
        return build(items)
    # ------------------------------------------------------------ loops
    def refine_loops(self, ps, depth, sub=None):
        """lv term -> term that does not depend on names: a stream denotation where the loop is one, else a recurrence hash"""
        sub = dict(sub or {})
        loops, trans = {}, {}
        for p in ps:
            for l in p.loops: loops.setdefault(l, None)
            if p.outcome == "back": trans.setdefault(p.loop, []).append(p)
        if not loops: return sub
        lvs = [(l, v, init, mk("lv", l, v)) for l in loops for v, init in l.a[1]]
        col = {lv: mk("rec", "0") for _, _, _, lv in lvs}
        def step(l, v, lv, s, d):
            its = []
            for p in trans.get(l, ()): its.append((cs[id(p)], self.canon(p.trans.get(v, lv), d, s)))
            return self.bdd(its)
        only = {lv: all(t is lv or (t.k == "mut" and t.a[0].endswith("::next") and t.a[3] is lv) for t in (p.trans.get(v, lv) for p in trans.get(l, ()))) for l, v, init, lv in lvs}
        # first colours: initial value and possible next values, tests left out (so that distinct loops are told apart before tests are read)
        for r in range(5):
            s = dict(sub); s.update(col); new = {}
            for l, v, init, lv in lvs:
                i, fs = self.base(self.canon(init, depth, s), only[lv])
                nx = sorted({order(self.canon(t, depth, s)) for t in (p.trans.get(v, lv) for p in trans.get(l, ()))})
                new[lv] = mk("rec", hashlib.md5((order(i) + "|".join(nx)).encode()).hexdigest()[:12] if r > 1 else "0", *fs)
                if fs: self.marks = True
            col = new
        for r in range(self.rounds):
            new = {}
            s = dict(sub); s.update(col)
            cs = {id(p): self.conds(p.conds[p.start:], depth, s) for l in loops for p in trans.get(l, ())}
            for l, v, init, lv in lvs:
                st = step(l, v, lv, s, depth)
                i, fs = self.base(self.canon(init, depth, s), only[lv])
                body = mk("recbody", i, st if st is not None else mk("never"))
                new[lv] = mk("rec", hashlib.md5(order(body).encode()).hexdigest()[:12], *fs)
                if fs: self.marks = True
            col = new
        # outer loops first, so that an inner loop's initial values are known
        order_l = []
        for p in ps:
            for l in p.loops:
                if l not in order_l: order_l.append(l)
        final = dict(sub); final.update(col)
        for l in order_l[::-1]:
            names = [(v, init, mk("lv", l, v)) for v, init in l.a[1]]
            s = dict(final)
            cs = {id(p): self.conds(p.conds[p.start:], depth + 1, s) for p in trans.get(l, ())}
            for v, init, lv in names:
                s2 = dict(s); s2[lv] = mk("self")
                st = step(l, v, lv, s2, depth + 1)
                self.recs[s[lv].a[0]] = mk("recbody", self.base(self.canon(init, depth, s), only[lv])[0], st if st is not None else mk("never"))
            self.streams(l, names, trans.get(l, ()), ps, s, depth, final)
        return final
    def base(self, init, st):
        """an iterator over map(map(it, f), g) that is only advanced: (it, [f, g])"""
        fs = []
        if st:
            while init.k == "call" and init.a[0] == "it::map" and init.a[3].k == "lam" and init.a[3].a[0] == 1:
                fs.insert(0, init.a[3]); init = init.a[2]
        return init, fs
    def streams(self, l, names, trans, ps, s, depth, final):
        """replace the variables of a `for` loop over an iterator that builds rows or a sum by what they hold after the loop"""
        its = []
        for v, init, lv in names:
            b = self.recs[s[lv].a[0]]
            st = b.a[1]
            if st.k == "mut" and st.a[0].endswith("::next") and st.a[3].k == "self": its.append((v, b.a[0], lv, mk("call", st.a[0], st.a[1], self.erase(s[lv]))))
        if len(its) != 1 or not trans: return
        v0, it0, itlv, nxt = its[0]
        raw = [mk("has", None)]
        hn = mk("has", nxt)
        for p in ps:
            if l not in p.loops or (p.outcome == "back" and p.loop is l): continue
            c = self.conds(p.conds, depth + 1, s)
            if c is None: continue
            if c.get(hn) is True: 
                # inside the loop at the end: fine only for a transition of a loop inside this one
                if p.outcome == "back" or p.outcome == "dead": continue
                return
        elem = mk("bv", depth, 0)
        for v, init, lv in names:
            if lv is itlv: continue
            me = mk("self")
            s2 = dict(s); s2[lv] = me
            items = []
            for p in trans:
                c = self.conds(p.conds[p.start:], depth + 1, s2)
                if c is None: continue
                c = {k: x for k, x in c.items() if k is not hn}
                items.append((c, self.canon(p.trans.get(v, lv), depth + 1, s2)))
            st = self.bdd(items)
            if st is None: continue
            st = self.subst(st, {mk("pay", nxt): elem})
            mine = [self.erase(s[o]) for _, _, o in names]
            if any(x.k == "rec" and x in mine for x in walk(st)): continue
            i = self.canon(init, depth, s)
            r = self.as_rows(i, st, it0, depth)
            if r is not None: final[lv] = r
    def as_rows(self, init, st, it, depth):
        me = mk("self")
        items = self.items(st)
        out, kind = [], None
        for c, v in items:
            if any(x is me for k in c for x in walk(k)): return None
            if v.k == "mut" and v.a[3] is me:
                n = v.a[0].split("::")[-1]
                if any(x is me for y in v.a[4:] for x in walk(y)): return None
                if n == "append_null": kk, y = "rows", NONE
                elif n in ("append_value", "append_values_iter", "append_slice", "append_series"): kk, y = "rows", mk("var", "Some", v.a[4])
                elif n == "append_option": kk, y = "rows", v.a[4]
                elif n == "push" : kk, y = "list", v.a[4]
                else: return None
            elif v.k == "poly":
                p = self.topoly(v)
                if p.get(((me, 1),)) != 1: return None
                p = Poly(p); del p[((me, 1),)]
                y = self.frompoly(p)
                if any(x is me for x in walk(y)): return None
                kk = "sum"
            elif v is me: kk, y = None, None
            elif v.k == "const" and v.a[0].endswith("::NAN"): kk, y = "sum", v    # whatever is added to it, the sum is NaN
            else: return None
            if kk is not None:
                if kind not in (None, kk): return None
                kind = kk
            out.append((c, y))
        if kind is None: return None
        if kind == "sum": out = [(c, integer(0) if y is None else y) for c, y in out]
        elif any(y is None for _, y in out): out = [(c, mk("skip") if y is None else y) for c, y in out]
        lam = mk("lam", 1, self.bdd(out), depth)
        it, lam = self.fuse(it, lam)
        if kind != "sum" and not (init.k == "call" and init.a[0].split("::")[-1] in ("new", "with_capacity", "default")): return None
        if kind == "sum": return self.tidy(mk("sum", init, it, lam))
        return self.tidy(mk(kind, it, lam))
    def fuse(self, it, lam):
        """map(it, f) then lam  ->  it, lam after f"""
        n = 0
        while it.k == "call" and it.a[0] == "it::map" and it.a[3].k == "lam" and n < 6:
            f = it.a[3]
            r = self.compose(lam, f)
            if r is None: break
            it, lam = it.a[2], r
            n += 1
        return it, lam
    def compose(self, g, f):
        """lam x. g(f(x)) for one-argument lams of the same depth"""
        if g.k != "lam" or f.k != "lam" or g.a[0] != 1 or f.a[0] != 1: return None
        if g.a[2] != f.a[2]: return None
        d = g.a[2]
        out = []
        for c, v in self.items(f.a[1]):
            b = self.subst(g.a[1], {mk("bv", d, 0): v})
            for c2, v2 in self.items(b):
                m = dict(c); bad = False
                for k, x in c2.items():
                    k, x = self.cond(k, x)
                    if k.k == "bool":
                        if k.a[0] is not x: bad = True
                        continue
                    if m.get(k, x) != x: bad = True
                    m[k] = x
                if not bad: out.append((m, v2))
        b = self.bdd(out)
        return mk("lam", 1, b, d) if b is not None else None
    def items(self, t):
        """decision diagram -> [(conditions, leaf)]"""
        if t.k != "case": return [({}, t)]
        out = []
        for arm in t.a[1]:
            v = {"True": True, "False": False}.get(arm.a[0], arm.a[0])
            for c, x in self.items(arm.a[1]):
                d = dict(c); d[t.a[0]] = v
                out.append((d, x))
        return out
    def subst(self, t, m):
        """replace subterms and simplify"""
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if t in m: r = m[t]
            elif t.k in ("int", "bool", "str", "char", "float", "const", "bv", "rec", "arg"): r = t
            elif t.k == "case":
                its = []
                for arm in t.a[1]:
                    v = {"True": True, "False": False}.get(arm.a[0], arm.a[0])
                    k, w = self.cond(go(t.a[0]), v)
                    if k.k == "bool":
                        if k.a[0] is w: its += self.items(go(arm.a[1]))
                        continue
                    for c, x in self.items(go(arm.a[1])):
                        if k in c and c[k] != w: continue
                        d = dict(c); d[k] = w
                        its.append((d, x))
                r = self.bdd(its)
                if r is None: r = mk("never")
            elif t.k == "poly":
                p = Poly()
                for c, mo in t.a[0]:
                    q = Poly({(): c})
                    for x, e in mo:
                        y = self.topoly(go(x))
                        if e > 0:
                            for _ in range(e): q = _pmul(q, y)
                        else:
                            for _ in range(-e): q = self.pdiv(q, y)
                    p = _padd(p, q)
                r = self.frompoly(p)
            else:
                a = tuple(go(x) if isinstance(x, T) else tuple(go(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in t.a)
                r = self.simp1(mk(t.k, *a))
            memo[t] = r
            return r
        return go(t)
    def shift(self, t, by, base):
        """rename bound variables of depth >= base"""
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if t.k == "bv": r = mk("bv", t.a[0] + by, t.a[1]) if t.a[0] >= base else t
            elif t.k in ("int", "bool", "str", "char", "float", "const", "rec", "arg"): r = t
            elif t.k == "case":
                its = []
                for c, x in self.items(t): its.append(({go(k): v for k, v in c.items()}, go(x)))
                r = self.bdd(its)
            elif t.k == "poly":
                p = Poly()
                for c, mo in t.a[0]:
                    p = _padd(p, Poly({tuple(sorted(((go(x), e) for x, e in mo), key=lambda q: order(q[0]))): c}))
                r = self.frompoly(p)
            elif t.k == "lam": r = mk("lam", t.a[0], go(t.a[1]), t.a[2] + by if t.a[2] >= base else t.a[2])
            else:
                a = tuple(go(x) if isinstance(x, T) else tuple(go(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in t.a)
                r = self.simp1(mk(t.k, *a))
            memo[t] = r
            return r
        return go(t)
    def paths(self, fn, args=None, post=False):
        """[(conditions, outcome)] in canonical terms, impossible paths left out"""
        ps = self.run_fn(fn, args, post)
        sub = self.refine_loops(ps, 0)
        out = []
        for p in ps:
            if p.outcome in ("dead", "back"): continue
            if p.outcome == "unknown": raise TooBig("unknown path")
            v = mk("panic") if p.outcome == "panic" else self.canon(p.value, 0, sub)
            c = self.conds(p.conds, 0, sub)
            if c is not None: out.append((c, v, p))
        return out
    def simp1(self, t):
        if t.k == "has":
            v = t.a[0]
            if v.k == "var":
                n = v.a[0]
                if n in ("Some", "Ok"): return msym.TRUE
                if n in ("None", "Err"): return msym.FALSE
        elif t.k == "pay":
            v = t.a[0]
            if v.k == "var" and v.a[0] in ("Some", "Ok") and len(v.a) > 1: return v.a[1]
        elif t.k == "fld":
            v = t.a[0]
            if v.k in ("tuple", "array") and t.a[1] < len(v.a): return v.a[t.a[1]]
        elif t.k == "bin" and t.a[0] in ("Eq", "Lt"): return self.cmp(*t.a)
        elif t.k in ("call", "rows", "list", "sum"): return self.tidy(t)
        elif t.k == "not" and t.a[0].k == "bool": return mk("bool", not t.a[0].a[0])
        return t
    # ------------------------------------------------------------ terms
    def canon(self, t, depth=0, sub=None):
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is None:
                r = memo[t] = self.node(t, go, depth, sub)
            return r
        return self.erase(go(t))
    def erase(self, t):
        """drop the marks refine_loops puts on iterators that map another"""
        if not self.marks: return t
        m = {x: mk("rec", x.a[0]) for x in walk(t) if x.k == "rec" and len(x.a) > 1}
        return self.subst(t, m) if m else t
    def tidy(self, t):
        """one step of stream simplification at the root"""
        if t.k == "call":
            k = t.a[0]
            if k == "it::iter" and len(t.a) == 3:
                x = t.a[2]
                if x.k == "list": return mk("call", "it::map", "", x.a[0], x.a[1])
                if x.k == "call" and x.a[0] == "it::collect" and "Vec" in x.a[1][:24]: return x.a[2]
            if k in ("it::copied", "it::cloned") and len(t.a) == 3 and not (t.a[2].k == "call" and t.a[2].a[0].endswith("::downcast_iter")): return t.a[2]
        elif t.k in ("rows", "list") and t.a[0].k == "call" and t.a[0].a[0] == "it::map" and t.a[1].k == "lam":
            it, f = self.fuse(*t.a)
            r = mk(t.k, it, f)
            return self.tidy(r) if r is not t else t
        elif t.k in ("rows", "list") and t.a[1].k == "lam":
            r = self.indexed(*t.a)
            if r: return mk(t.k, *r)
        elif t.k == "sum" and t.a[2].k == "lam" and t.a[1].k == "call":
            a, it, f = t.a
            if it.a[0] == "it::map": it, f = self.fuse(it, f)
            r = self.indexed(it, f)
            if r: it, f = r
            if it.k == "call" and it.a[0] == "it::zip" and len(it.a) == 4 and order(it.a[3]) < order(it.a[2]):
                e = mk("bv", f.a[2], 0)
                x, y = mk("fld", e, 0), mk("fld", e, 1)
                if self.subst(f.a[1], {x: y, y: x}) is f.a[1]: it = mk("call", "it::zip", "", it.a[3], it.a[2])
            return mk("sum", a, it, f)
        return t
    def indexed(self, it, f):
        """i in 0..n, used only to read x[i] (n the length of x), x[i*w .. i*w+w] (n = len/w) or x[i .. i+w] (n = len-w+1): x itself, its chunks, its windows"""
        if it.k != "call" or it.a[0] != "it::iter" or len(it.a) != 3: return None
        r = it.a[2]
        if r.k != "struct" or r.a[0] != "Range" or r.a[1] is not integer(0) or f.a[0] != 1: return None
        d = f.a[2]
        i = mk("bv", d, 0)
        I = ((i, 1),)
        try: N = self.topoly(r.a[2])
        except TooBig: return None
        src, sub, bad = {}, {}, []
        free = {}
        def has(t):
            r = free.get(t)
            if r is None: r = free[t] = t is i or any(has(y) for y in msym.kids(t))
            return r
        def find(t):
            if bad or not has(t) or t in sub: return
            if t is i: bad.append(t); return
            if t.k == "idx" and not has(t.a[0]):
                x, j = t.a[0], t.a[1]
                try:
                    # x is written one binder further in than the iterator
                    xo = self.shift(x, -1, d + 1)
                    n = self.topoly(mk("len", xo))
                    s = None
                    if j is i and n == N: s = mk("call", "it::iter", "", xo)
                    elif j.k == "struct" and j.a[0] == "Range":
                        lo, hi = self.topoly(j.a[1]), self.topoly(j.a[2])
                        w = _padd(hi, lo, -1)
                        if lo == Poly({I: Fraction(1)}) and not has(self.frompoly(w)) and n == _padd(_padd(N, w), Poly({(): Fraction(1)}), -1): s = mk("call", "it::windows", "", xo, self.shift(self.frompoly(w), -1, d + 1))
                        elif lo == _pmul(w, Poly({I: Fraction(1)})) and not has(self.frompoly(w)) and n == _pmul(N, w): s = mk("call", "it::chunks_exact", "", xo, self.shift(self.frompoly(w), -1, d + 1))
                    if s is not None:
                        src.setdefault(s, None); sub[t] = s; return
                except TooBig: pass
            for y in msym.kids(t): find(y)
        find(f.a[1])
        if bad or not src: return None
        order_s = sorted(src, key=order)
        if len(order_s) == 1: new = order_s[0]; m = {t: i for t in sub}
        elif len(order_s) == 2: new = mk("call", "it::zip", "", *order_s); m = {t: mk("fld", i, order_s.index(s)) for t, s in sub.items()}
        else: return None
        return new, mk("lam", 1, self.subst(f.a[1], m), d)
    def node(self, t, go, depth, sub):
        k, a = t.k, t.a
        if sub is not None and t in sub: return sub[t]
        if k in ("int", "bool", "arg", "bv", "char", "rec", "row"): return t
        if k == "float":
            f = Fraction(a[0]) if isinstance(a[0], (int, float)) and a[0] == a[0] and abs(a[0]) != float("inf") else None
            if f is not None and f.denominator == 1: return integer(int(f))
            return t
        if k == "str": return t
        if k == "loop": return mk("loop")
        if k == "lv": return mk("rec", "?")
        if k == "closure": return self.lam(t, depth, sub, go)
        if k == "cell": return mk("cell", go(a[0]))
        if k == "fn": return self.fnref(t, depth)
        if k == "const":
            n = str(a[0])
            if self.erase32: n = e32(n)
            m = re.match(r"^(?:<?[\w:]+>?::)?(f64|f32)::consts::(\w+)$", n)
            n = re.sub(r"^(core|std)::", "", n)
            if re.match(r"^[\w:<>, &\[\]']+$", n) and re.search(r"::\w+(::<.*>)?$", n) and not re.search(r"::[A-Z][A-Z0-9_]*$", n): return mk("fnref", self.ckey(msym.mir.canon_callee(str(a[0]))))
            return mk("const", n)
        if k == "bin":
            op, x, y = a
            if op in _ARITH or op == "Neg": return self.arith(t, go)
            x, y = go(x), go(y)
            return self.cmp(op, x, y)
        if k == "not":
            x = go(a[0])
            return x.a[0] if x.k == "not" else mk("bool", not x.a[0]) if x.k == "bool" else mk("not", x)
        if k == "un" and a[0] == "Neg": return self.arith(t, go)
        if k in ("cast", "fcast"):
            x = go(a[1])
            ty = a[0]
            if k == "fcast" and self.erase32: return x
            if self.erase32: ty = e32(ty)
            return self.cast(ty, x)
        if k == "var":
            n = a[0].split("::")[-1]
            if n == "Err" and len(a) > 1:
                x = a[1]
                if x.k == "var": return mk("var", "Err", mk("str", x.a[0].split("::")[-1]))
                if x.k == "err": return mk("var", "Err", mk("err"))
                return mk("var", "Err", mk("err"))
            if self.erase32: n = e32(n)
            return mk("var", n, *[go(x) for x in a[1:]])
        if k == "err": return mk("err")
        if k == "call": return self.call(t, go, depth, sub)
        if k == "mut":
            key = self.ckey(a[0])
            if key == "it::collect_into_vec" and len(a) == 5:
                r = self.stream_call("it::collect", "collect", "Vec<", [go(a[3] if a[2] in (1, "1") else a[4])], depth)
                if r is not None: return r
            return mk("mut", key, self.cty(a[1]), str(a[2]), *[go(x) for x in a[3:]])
        if k == "disc":
            return mk("disc", go(a[0]))
        if k == "pay":
            x = go(a[0])
            if x.k == "var" and x.a[0] in ("Some", "Ok") and len(x.a) > 1: return x.a[1]
            if x.k == "call" and x.a[0].endswith("::next") and len(x.a) == 3 and x.a[2].k == "rec" and len(x.a[2].a) > 1:
                e = mk("pay", x)
                for f in x.a[2].a[1:]: e = self.app(f, [e])
                return e
            return mk("pay", x)
        if k in ("tuple", "array"): return mk(k, *[go(x) for x in a])
        if k == "struct": return mk(k, a[0].split("::")[-1] if not self.erase32 else e32(a[0].split("::")[-1]), *[go(x) for x in a[1:]])
        return mk(k, *[go(x) if isinstance(x, T) else tuple(go(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in a])
    def ckey(self, key):
        if self.erase32: key = e32(key)
        p = key.split("::")
        if len(p) >= 2 and p[-2] in ("ParallelIterator", "IntoParallelIterator", "IndexedParallelIterator", "IntoParallelRefIterator", "Iterator", "IntoIterator", "DoubleEndedIterator", "Itertools", "ParallelExtend"):
            l = p[-1]
            if l.startswith("into_par_iter") or l in ("par_iter",): l = "iter"
            return "it::" + l
        if re.search(r"(<impl|\bnum::|\bf64|\bf32|Float|\[)", key) and len(p) >= 2:
            return "::" + p[-1]
        if len(p) >= 3 and p[-2].endswith("Comparator") and p[-1] == "new": return "::".join(p[-3:])
        return "::".join(p[-2:]) if len(p) >= 2 else key
    def cty(self, ty):
        ty = re.sub(r"\{closure[^}]*\}", "", ty)
        if self.erase32: ty = e32(ty)
        m = re.match(r"^(?:std::vec::|alloc::vec::)?Vec<", ty)
        if m: return "Vec"
        if ty.startswith("<") and "{" in ty: return ""
        return ty
    def cmp(self, op, x, y):
        if op in ("Eq", "Lt", "Le"):
            if x.k == "int" and y.k == "int":
                p, q = x.a[0], y.a[0]
                return mk("bool", {"Eq": p == q, "Lt": p < q, "Le": p <= q}[op])
            if op == "Eq":
                if order(y) < order(x): x, y = y, x
                if x is y and x.k in ("int", "str"): return msym.TRUE
                return mk("bin", "Eq", x, y)
            if op == "Le": return mk("not", mk("bin", "Lt", y, x))
            return mk("bin", "Lt", x, y)
        if op in ("BitAnd", "BitOr", "BitXor") and order(y) < order(x): x, y = y, x
        return mk("bin", op, x, y)
    def cast(self, ty, x):
        if x.k in ("int", "float") : return x
        if x.k == "cast" and re.match(r"^(f64|usize|u64|i64)$", ty) and re.match(r"^(u8|u16|u32|usize|i32|u64)$", x.a[0]): x = x.a[1] if x.a[0] in ("usize", "u64", "u32") and ty in ("f64",) else x
        if ty in ("f64", "f32") and x.k == "poly":
            p = self.topoly(x)
            r = Poly()
            for m, c in p.items():
                r = _padd(r, {tuple((self.cast(ty, at), e) for at, e in m): c})
            return self.frompoly(r)
        if ty in ("usize", "i64", "u64", "u32", "i32", "i128", "isize") and x.k == "poly" and not any(c.denominator != 1 for c in self.topoly(x).values()): 
            pass
        return mk("cast", ty, x)
    # arithmetic
    def arith(self, t, go):
        try: return self.frompoly(self.topoly_raw(t, go))
        except TooBig:
            return mk("bin", t.a[0], *[go(x) for x in t.a[1:]])
    def topoly_raw(self, t, go):
        if t.k == "bin" and t.a[0] in _ARITH:
            op, x, y = t.a
            if op == "Div":
                return self.pdiv(self.topoly_raw(x, go), self.topoly_raw(y, go))
            p, q = self.topoly_raw(x, go), self.topoly_raw(y, go)
            if op == "Add": return _padd(p, q)
            if op == "Sub": return _padd(p, q, -1)
            return _pmul(p, q)
        if t.k == "un" and t.a[0] == "Neg": return _padd(Poly(), self.topoly_raw(t.a[1], go), -1)
        return self.topoly(go(t))
    def topoly(self, t):
        if t.k == "int": return Poly({(): Fraction(t.a[0])}) if t.a[0] else Poly()
        if t.k == "float" and isinstance(t.a[0], (int, float)) and t.a[0] == t.a[0] and abs(t.a[0]) != float("inf"):
            return Poly({(): Fraction(repr(t.a[0]))}) if t.a[0] else Poly()
        if t.k == "poly":
            r = Poly()
            for c, m in t.a[0]: r[tuple((x, e) for x, e in m)] = c
            return r
        return Poly({((t, 1),): Fraction(1)})
    def frompoly(self, p):
        if not p: return integer(0)
        if len(p) == 1:
            (m, c), = p.items()
            if not m: return integer(int(c)) if c.denominator == 1 else mk("float", float(c))
            if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
        return mk("poly", tuple(sorted(((c, m) for m, c in p.items()), key=lambda z: (str([(order(x), e) for x, e in z[1]]), z[0]))))
    def pdiv(self, p, q):
        if len(q) == 1:
            (m, c), = q.items()
            return _pmul(p, Poly({tuple((x, -e) for x, e in m): 1 / c}))
        if not q: return _pmul(p, Poly({((integer(0), -1),): Fraction(1)}))
        # make the divisor primitive: leading coefficient 1
        lead = min(q, key=lambda m: str([(order(x), e) for x, e in m]))
        c = q[lead]
        d = self.frompoly(Poly({m: v / c for m, v in q.items()}))
        # p / q where p is a multiple of q
        return _pmul(p, Poly({((d, -1),): 1 / c}))
    def call(self, t, go, depth, sub):
        key, ty, args = t.a[0], t.a[1], t.a[2:]
        l = key.split("::")[-1]
        n = len(args)
        k = self.ckey(key)
        if n == 2 and l == "powi":
            b = go(args[1])
            if b.k == "int" and abs(b.a[0]) <= 6: return self.power(go(args[0]), b.a[0])
        if n == 2 and l in ("powf", "pow"):
            b = go(args[1])
            if b.k == "int" and abs(b.a[0]) <= 6: return self.power(go(args[0]), b.a[0])
        if n == 1 and l == "recip": return self.frompoly(self.pdiv(self.topoly(integer(1)), self.topoly(go(args[0]))))
        if n == 3 and l == "mul_add": return self.frompoly(_padd(_pmul(self.topoly(go(args[0])), self.topoly(go(args[1]))), self.topoly(go(args[2]))))
        if n == 2 and l == "scalar_mul" : pass
        if n == 0 and l in ("zero", "one") : return integer(0 if l == "zero" else 1)
        if n == 0 and l in ("infinity", "neg_infinity", "nan", "epsilon", "max_value", "min_value", "min_positive_value"):
            m = re.search(r"(f64|f32)", ty)
            return mk("const", "f64::" + {"infinity": "INFINITY", "neg_infinity": "NEG_INFINITY", "nan": "NAN", "epsilon": "EPSILON", "max_value": "MAX", "min_value": "MIN", "min_positive_value": "MIN_POSITIVE"}[l]) if (m and self.erase32) or not m else mk("const", m.group(1) + "::" + {"infinity": "INFINITY", "neg_infinity": "NEG_INFINITY", "nan": "NAN", "epsilon": "EPSILON", "max_value": "MAX", "min_value": "MIN", "min_positive_value": "MIN_POSITIVE"}[l])
        if n == 1 and l == "is_zero": return self.cmp("Eq", integer(0), go(args[0]))
        if n == 1 and l == "is_one": return self.cmp("Eq", integer(1), go(args[0]))
        A = [go(x) for x in args]
        if n == 2 and l in ("min", "max") and order(A[1]) < order(A[0]) and "cmp" not in key.lower()[:0]: A = A[::-1]
        r = self.stream_call(k, l, ty, A, depth)
        if r is not None: return r
        if n == 1 and k in ("it::iter", "iter", "it::into_iter"): 
            x = A[0]
            if x.k == "call" and x.a[0] == "it::collect" and "Vec" in x.a[1][:24]: return x.a[2]
            if x.k == "call" and x.a[0].startswith("it::") and x.a[0] != "it::collect": return x
            return mk("call", "it::iter", "", x)
        if k == "it::collect" and n == 1:
            return mk("call", k, "Vec" if re.match(r"^(std::vec::)?Vec<", ty) else self.cty(ty), A[0])
        if n == 1 and l in ("with_name", "into_series", "into_column"): return A[0]
        if n == 2 and l in ("with_name",): return A[0]
        if k == "it::map" and n == 2 and A[0].k == "call" and A[0].a[0] == "it::map":
            pass
        if k.endswith("cfavml::squared_euclidean") and n == 2 and not self.erase32:
            e = mk("bv", depth, 0)
            d = _padd(self.topoly(mk("fld", e, 0)), self.topoly(mk("fld", e, 1)), -1)
            return self.tidy(mk("sum", integer(0), mk("call", "it::zip", "", self.itr(A[0]), self.itr(A[1])), mk("lam", 1, self.frompoly(_pmul(d, d)), depth)))
        return self.tidy(mk("call", k, self.cty(ty), *A))
    def app(self, f, args):
        if f.k == "lam" and f.a[0] == len(args):
            return self.subst(f.a[1], {mk("bv", f.a[2], i): a for i, a in enumerate(args)})
        if f.k == "fnref": return mk("call", f.a[0], "", *args)
        return mk("call", "<indirect>", "", f, *args)
    def lift(self, f, opts, depth):
        """lam on a row: null when any of opts is null, else Some(f(values))"""
        b = self.app(f, [self.simp1(mk("pay", o)) for o in opts])
        m = {mk("has", o): True for o in opts}
        out = [({**m, **c}, mk("var", "Some", v)) for c, v in self.items(b)]
        for i, o in enumerate(opts):
            out.append(({**{mk("has", p): True for p in opts[:i]}, mk("has", o): False}, NONE))
        return mk("lam", 1, self.bdd(out), depth)
    def stream_call(self, k, l, ty, A, depth):
        n = len(A)
        def is_map(x): return x.k == "call" and x.a[0] == "it::map" and len(x.a) == 4 and x.a[3].k in ("lam", "fnref")
        def parts(x, depth):
            f = x.a[3]
            if f.k == "fnref": f = mk("lam", 1, self.app(f, [mk("bv", depth, 0)]), depth)
            return self.fuse(x.a[2], f)
        if l == "collect" and n == 1:
            x = A[0]
            if x.k == "call" and x.a[0] in ("it::cloned", "it::copied"): x = x.a[2]
            if x.k == "call" and x.a[0].endswith("::downcast_iter"): return mk("chunks", x.a[2])
            vec = bool(re.match(r"^<?(std::vec::|alloc::vec::)?Vec<", ty)) or "Vec<" in ty.split(" as ")[0]
            ca = "ChunkedArray<" in ty
            if is_map(x):
                it, f = parts(x, depth)
                if ca: return self.tidy(mk("rows", it, f))
                if vec: return self.tidy(mk("list", it, f))
            return None
        if l in ("from_iter_options",) and n == 2 and is_map(A[1]):
            it, f = parts(A[1], depth)
            return self.tidy(mk("rows", it, f))
        if k.startswith("ChunkedArray::") or k.startswith("arity::"):
            if l == "apply_nonnull_values_generic" and n == 3:
                return mk("rows", self.itr(A[0]), self.lift(A[2], [mk("bv", depth, 0)], depth))
            if l in ("apply_values", "cast_and_apply_in_place") and n == 2:
                return mk("rows", self.itr(A[0]), self.lift(A[1], [mk("bv", depth, 0)], depth))
            if l == "binary_elementwise_values" and n == 3:
                e = mk("bv", depth, 0)
                return mk("rows", mk("call", "it::zip", "", self.itr(A[0]), self.itr(A[1])), self.lift(A[2], [mk("fld", e, 0), mk("fld", e, 1)], depth))
            if l in ("to_vec",) and n == 1: return A[0]
        if l == "finish" and n == 1 and A[0].k == "rows": return A[0]
        if l in ("iter", "into_iter") and n == 1 and A[0].k == "list": return mk("call", "it::map", "", A[0].a[0], A[0].a[1])
        if l in ("par_bridge",) and n == 1: return A[0]
        if l.startswith("par_") and l[4:] in ("windows", "chunks", "chunks_exact") : return mk("call", "it::" + l[4:], "", *A)
        if l in ("windows", "chunks_exact") and n == 2: return mk("call", "it::" + l, "", *A)
        if l == "sum" and n == 1:
            x = A[0]
            if is_map(x):
                it, f = parts(x, depth)
                return self.tidy(mk("sum", integer(0), it, f))
            return self.tidy(mk("sum", integer(0), x, mk("lam", 1, mk("bv", depth, 0), depth)))
        if l == "fold" and n == 3 and A[2].k == "lam" and A[2].a[0] == 2:
            f = A[2]
            acc, x = mk("bv", f.a[2], 0), mk("bv", f.a[2], 1)
            me = mk("self")
            b = self.subst(f.a[1], {acc: me, x: acc})
            r = self.as_rows(A[1], b, A[0], f.a[2])
            if r is not None and r.k == "sum": return r
        return None
    def itr(self, x):
        return mk("call", "it::iter", "", x)
    def power(self, x, e):
        p = self.topoly(x)
        if e < 0:
            return self.frompoly(self.pdiv(self.topoly(integer(1)), self.topoly(self.power(x, -e))))
        r = Poly({(): Fraction(1)})
        for _ in range(e): r = _pmul(r, p)
        return self.frompoly(r)
    # ------------------------------------------------------------ functions
    def arity(self, t):
        if t.k == "closure":
            f = self.prog.by_closure.get(t.a[0])
            return len(f.args) - 1 if f else None
        if t.k == "fn":
            fs = self.prog.resolve(t.a[0])
            if len(fs) == 1 and fs[0].blocks: return len(fs[0].args)
        return None
    def raw(self, f):
        """digest of a body that writes through raw pointers: such writes are not part of the outcome, so the body stands for itself"""
        if f is None: return None
        r = self._raw.get(id(f), 0) if hasattr(self, "_raw") else 0
        if r != 0: return r
        if not hasattr(self, "_raw"): self._raw = {}
        r = None
        if "_polars_plugin_" not in f.canon.split("::")[-1] and any((m := _store.match(s.text)) and str(f.locals.get(int(m.group(1)), "")).startswith("*mut ") for b in f.blocks.values() for s in b.stmts):
            txt = [s.text for _, b in sorted(f.blocks.items()) for s in b.stmts] + [b.term.text for _, b in sorted(f.blocks.items())]
            r = mk("@", "raw", hashlib.sha256(re.sub(r"src/[\w/.]+\.rs:\d+:\d+: \d+:\d+(?: \(#\d+\))?", "", "\n".join(txt)).encode()).hexdigest()[:16])
        self._raw[id(f)] = r
        return r
    def lam(self, t, depth, sub, go):
        n = self.arity(t)
        if n is None: return mk("closure?", len(t.a[1]))
        free = self._free.get(t)
        if free is None: free = self._free[t] = [x for x in walk(t) if x.k == "lv"]
        key = (t, depth, tuple(sub.get(x) for x in free) if sub else 0)
        r = self._lam.get(key)
        if r is not None: return r[0]
        bv = [mk("bv", depth, i) for i in range(n)]
        try:
            ps = self._runs.get((t, depth))
            if ps is None: ps = self._runs[(t, depth)] = self.run_value(t, bv)
            b = self.of_paths(ps, depth + 1, sub)
            raw = self.raw(self.prog.by_closure.get(t.a[0])) if t.k == "closure" else None
            if raw is not None: b = mk("tuple", b if b is not None else mk("never"), raw)
            r = mk("lam", n, b if b is not None else mk("never"), depth)
            # eta
            if b is not None and b.k == "call" and list(b.a[2:]) == bv and not any(x.k == "bv" and x.a[0] == depth for x in walk(mk("tuple"))): r = mk("fnref", b.a[0])
        except (TooBig, RecursionError) as e:
            r = mk("lam?", str(t.a[0]))
        self._lam[key] = (r, sub)
        return r
    def fnref(self, t, depth):
        n = self.arity(t)
        if n is None: return mk("fnref", self.ckey(msym.mir.canon_callee(t.a[0])))
        key = (t, depth, 0)
        r = self._lam.get(key)
        if r is not None: return r[0]
        self._lam[key] = (mk("fnref", "recursive"), None)
        bv = [mk("bv", depth, i) for i in range(n)]
        try:
            b = self.of_paths(self.run_value(t, bv), depth + 1, None)
            r = mk("lam", n, b if b is not None else mk("never"), depth)
            if b is not None and b.k == "call" and list(b.a[2:]) == bv: r = mk("fnref", b.a[0])
        except (TooBig, RecursionError):
            r = mk("fnref", self.ckey(msym.mir.canon_callee(t.a[0])))
        self._lam[key] = (r, None)
        return r

def e32(s):
    s = re.sub(r"Float32", "Float64", s)
    s = re.sub(r"\bf32\b", "f64", s)
    s = re.sub(r"_f32\b", "", s)
    s = re.sub(r"F32", "F64", s)
    return s

# ---------------------------------------------------------------------------------------- comparison
def size(t, cap=200):
    n = 0
    for _ in walk(t):
        n += 1
        if n > cap: return n
    return n

def holes(a, b, recs, out=None, seen=None):
    """where two normal forms differ: list of (sub-a, sub-b)"""
    if out is None: out, seen = [], set()
    if a is b or (a, b) in seen: return out
    seen.add((a, b))
    if len(out) > 40: return out
    if isinstance(a, T) and isinstance(b, T) and a.k == b.k:
        if a.k == "rec" and a.a[0] in recs and b.a[0] in recs: return holes(recs[a.a[0]], recs[b.a[0]], recs, out, seen)
        if a.k == "poly" and b.k == "poly":
            x, y = dict((m, c) for c, m in a.a[0]), dict((m, c) for c, m in b.a[0])
            for m in list(x):
                if y.get(m) == x[m]: del x[m]; del y[m]
            x, y = sorted(x.items(), key=str), sorted(y.items(), key=str)
            if len(x) == len(y) == 1 and len(x[0][0]) == len(y[0][0]) and x[0][1] == y[0][1]:
                mx, my = dict(x[0][0]), dict(y[0][0])
                for k in list(mx):
                    if my.get(k) == mx[k]: del mx[k]; del my[k]
                if len(mx) == len(my) == 1:
                    (p, e), = mx.items(); (q, f), = my.items()
                    if e == f: return holes(p, q, recs, out, seen)
            out.append((a, b)); return out
        if len(a.a) == len(b.a):
            heads = [i for i in range(len(a.a)) if not isinstance(a.a[i], (T, tuple)) and a.a[i] != b.a[i]]
            if not heads:
                for x, y in zip(a.a, b.a):
                    if isinstance(x, T) and isinstance(y, T): holes(x, y, recs, out, seen)
                    elif isinstance(x, tuple) and isinstance(y, tuple):
                        if len(x) != len(y): out.append((a, b)); return out
                        for p, q in zip(x, y):
                            if isinstance(p, T) and isinstance(q, T): holes(p, q, recs, out, seen)
                            elif p != q: out.append((a, b)); return out
                return out
    out.append((a, b))
    return out
