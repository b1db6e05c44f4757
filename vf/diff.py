"""Three-valued comparison of normal forms: the same, certainly different, or unclear.

Two computations differ for certain only where the rest of them is the same and what remains is of one of a few kinds
that no rewriting of the same computation produces: another literal, another polynomial over the same atoms (decided by
evaluating both as rational functions), another comparison of the same operands, another function of the same family on
the same arguments, another input, another constructor.  Loops are paired up first, so that a change in one recurrence
is seen once.  Everything else is unclear, and an unclear difference is never reported."""
from __future__ import annotations
import hashlib, itertools, math, os, re
from fractions import Fraction
from .msym import T, mk, walk, show, kids
from .nf import Poly, TooBig, integer, order, size

P = (1 << 61) - 1
def _h(*x): return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big") % P

COMM = {"min", "max"}
FAMILIES = [{"min", "max"}, {"ln", "log2", "log10", "ln_1p", "log"}, {"exp", "exp2", "exp_m1"}, {"sqrt", "cbrt", "abs", "ln", "exp", "sin", "cos", "tan", "signum"},
            {"floor", "ceil", "round", "trunc"}, {"sum", "mean", "std", "var", "product", "median", "min", "max", "count"}, {"is_some", "is_none"},
            {"head", "tail"}, {"first", "last"}, {"sinh", "cosh", "tanh"}, {"asin", "acos", "atan"}, {"min_reduce", "max_reduce"}, {"fill_null_with_zero", "fill_null_with_one"},
            {"all", "any"}, {"take", "skip"}, {"to_uppercase", "to_lowercase"}, {"starts_with", "ends_with"}, {"arg_min", "arg_max"}, {"forward", "backward"}, {"lt", "lt_eq", "gt", "gt_eq", "eq", "neq"},
            {"saturating_add", "saturating_sub"}, {"wrapping_add", "wrapping_sub"}]
PEEL = {"abs", "sqrt", "ln", "exp", "rev", "skip", "step_by", "neg", "ceil", "floor", "round", "unique", "drop_nulls", "sort", "ln_1p"}
INJ = {"from_vec", "from_slice", "from_series", "from_iter_values", "into_series", "new", "full", "full_null", "into_struct"}
NONINJ = {"len", "is_empty", "height", "nrows", "ncols", "count", "n_chunks", "with_capacity", "reserve", "to_string", "format"}
BLIND = {"with_capacity", "reserve"}

def known(v):
    """a variant of the library's types or of the reference program's"""
    if not VARIANTS:
        VARIANTS.update({"Ok", "Err", "Some", "None"})
        for root, _, fs in os.walk(os.path.join(os.path.dirname(__file__), "..", "spec", "ref", "native")):
            for f in fs:
                if f.endswith(".rs"):
                    t = re.sub(r"//.*|#\[[^\]]*\]", "", open(os.path.join(root, f)).read())
                    for m in re.finditer(r"\benum\s+\w+[^{]*\{((?:[^{}]|\{[^{}]*\})*)\}", t): VARIANTS.update(re.findall(r"(?:^|,)\s*(\w+)", re.sub(r"\([^)]*\)|\{[^}]*\}", "", m.group(1))))
    v = v.split("::")
    return v[-1] in VARIANTS or len(v) > 1 and not re.match(r"^(crate|num_ext|str_ext|stats|linalg|arkadia|utils)$", v[0])
VARIANTS = set()

class Diff:
    def __init__(self, q, recs, reach=None):
        self.q, self.recs, self.reach = q, recs, reach
        self.ev_, self.memo, self.rigid_ = {}, {}, {}
    # ------------------------------------------------------------ values
    def ev(self, t):
        """a number that equal terms share (polynomials as rational functions at one random point)"""
        r = self.ev_.get(t)
        if r is not None: return r
        k = t.k
        if k == "poly":
            r = 0
            for c, m in t.a[0]:
                x = (c.numerator * pow(c.denominator, P - 2, P)) % P if isinstance(c, Fraction) else int(c) % P
                for at, e in m:
                    if not isinstance(e, int): x = x * _h("pow", self.ev(at), e) % P
                    else:
                        b = self.ev(at)
                        x = x * (pow(b, e, P) if e >= 0 else pow(pow(b, P - 2, P), -e, P)) % P
                r = (r + x) % P
        elif k == "int" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool): r = t.a[0] % P
        elif k == "float" and isinstance(t.a[0], (int, float)) and t.a[0] == t.a[0] and abs(t.a[0]) != float("inf"):
            f = Fraction(repr(t.a[0])); r = f.numerator * pow(f.denominator, P - 2, P) % P
        else:
            a = [self.ev(x) if isinstance(x, T) else tuple(self.ev(y) if isinstance(y, T) else self.seq(y) for y in x) if isinstance(x, tuple) else x for x in t.a]
            if k == "call":
                l = t.a[0].split("::")[-1]
                if l == "abs" and len(a) == 3: a[2] = min(a[2], P - a[2])
                if l in COMM: a[2:] = sorted(a[2:])
                a[1] = ""
            elif k == "bin" and a[0] in ("Eq", "BitAnd", "BitOr", "BitXor"): a[1:] = sorted(a[1:])
            r = _h(k, *a)
        self.ev_[t] = r
        return r
    def seq(self, y): return tuple(self.ev(z) if isinstance(z, T) else self.seq(z) if isinstance(z, tuple) else z for z in y) if isinstance(y, tuple) else y
    def rigid(self, t):
        """an input, or a part of one read at a fixed place"""
        r = self.rigid_.get(t)
        if r is None:
            k = t.k
            if k in ("arg", "bv"): r = True
            elif k in ("fld", "pay", "proj", "deref", "ref", "elem", "idx", "index"): r = all(self.rigid(x) or x.k == "int" for x in t.a if isinstance(x, T))
            elif k == "call":
                l = t.a[0].split("::")[-1]
                r = l in ("f64", "f32", "str", "u32", "i64", "u64", "i32", "bool", "get", "list", "cont_slice", "as_slice", "idx", "index", "as_str", "struct_", "to_vec", "clone") and all(self.rigid(x) or x.k in ("int", "str") for x in t.a[2:])
            else: r = False
            self.rigid_[t] = r
        return r
    def ground(self, t):
        """a value written out in constants"""
        return all(z.k in ("int", "float", "str", "char", "bool", "array", "tuple", "var", "agg", "ref", "none", "unit") or z.k == "const" for z in walk(t))
    def atoms(self, p):
        out = {}
        for m in p:
            for at, _ in m: out[self.ev(at)] = at
        return out
    # ------------------------------------------------------------ kinds of certain differences
    LIT = {"int", "bool", "str", "char", "float", "const"}
    def likes(self, x, y, conds=()):
        if x.k in self.LIT and y.k in self.LIT:
            if {x.k, y.k} & {"const"} and x.k != y.k and not re.search(r"NAN|INF", (x if x.k == "const" else y).a[0]): return None
            if x.k == y.k == "const" and not (re.search(r"NAN|INF|EPSILON", x.a[0] + y.a[0])): return ("const", x, y)
            if self.ev(x) == self.ev(y): return None
            if x.k in ("int", "float") and y.k in ("int", "float"): return ("num", (self.ev(y) - self.ev(x)) % P)
            return ("lit", x, y)
        if x.k == y.k == "array" and len(x.a) != len(y.a) and len(x.a) > 1 and len(y.a) > 1 and self.ground(x) and self.ground(y): return ("lit", x, y)
        if x.k == "var" and y.k == "var" and x.a[0] != y.a[0]:
            return ("ctor", x.a[0], y.a[0]) if known(x.a[0]) and known(y.a[0]) else None      # a variant may have been renamed
        if "panic" in (x.k, y.k): return None
        if x.k == y.k == "bin" and x.a[0] in ("Lt", "Eq") and y.a[0] in ("Lt", "Eq"):
            a, b = {self.ev(x.a[1]), self.ev(x.a[2])}, {self.ev(y.a[1]), self.ev(y.a[2])}
            if a == b and len(a) == 2 and x.a[0] != y.a[0]: return ("cmp", x.a[0], y.a[0])
        if x.k == y.k == "ge" and self.ev(x.a[0]) == self.ev(y.a[0]) and self.ev(x.a[1]) != self.ev(y.a[1]): return ("num", (self.ev(y.a[1]) - self.ev(x.a[1])) % P)
        if x.k == y.k == "bin" and x.a[0] != y.a[0] and x.a[0] in ("BitAnd", "BitOr", "BitXor", "Rem", "Shl", "Shr") and y.a[0] in ("BitAnd", "BitOr", "BitXor", "Rem", "Shl", "Shr"):
            if self.ev(x.a[1]) == self.ev(y.a[1]) and self.ev(x.a[2]) == self.ev(y.a[2]): return ("op", x.a[0], y.a[0])
        if x.k == y.k == "call":
            f, g = x.a[0].split("::")[-1], y.a[0].split("::")[-1]
            if f != g and [self.ev(z) for z in x.a[2:]] == [self.ev(z) for z in y.a[2:]]:
                if any(f in s and g in s for s in FAMILIES): return ("fun", f, g)
                if self.reach and self.reach(x.a[0], y.a[0]): return ("fun", f, g)
        for s, t, d in ((x, y, 0), (y, x, 1)):
            if s.k == "call" and len(s.a) >= 3 and s.a[0].split("::")[-1] in PEEL and self.ev(s.a[2]) == self.ev(t) and not (len(s.a) == 4 and s.a[3].k == "int" and s.a[3].a[0] == 0):
                return ("peel", s.a[0].split("::")[-1], d)
        try: p, q = self.q.topoly(x), self.q.topoly(y)
        except TooBig: return None
        a, b = self.atoms(p), self.atoms(q)
        if (x.k in ("poly", "int", "float") or y.k in ("poly", "int", "float")) and a and b:
            if self.ev(x) == self.ev(y): return None
            if set(a) == set(b): return ("num", (self.ev(y) - self.ev(x)) % P)
            extra = [at for e, at in list(a.items()) + list(b.items()) if (e in a) != (e in b)]
            if set(a) & set(b) and all(self.rigid(at) for at in extra) and not self.pinned(extra, conds): return ("dep",) + tuple(sorted(map(order, extra)))
            if len(a) == len(b) and len(set(a) - set(b)) == 1 and len(extra) == 2 and all(self.rigid(at) for at in extra) and not self.pinned(extra, conds): return ("dep",) + tuple(sorted(map(order, extra)))
        if self.valued(x, y, conds): return ("val", x, y)
        if self.rigid(x) and self.rigid(y) and x.k == y.k and self.ev(x) != self.ev(y) and not self.pinned([x, y], conds): return ("input", x, y)
        return None
    def valued(self, x, y, conds):
        """two closed formulas of the same free inputs that take different values at chosen points"""
        if not (closed(x) or closed(y)) or x.k in self.LIT and y.k in self.LIT: return False
        fx, fy = free(x), free(y)
        if fx is None or fy is None or len(fx | fy) > 6: return False
        at = sorted(fx | fy, key=order)
        if not at or not (fx & fy or len(at) == 1) or not all(self.rigid(a) or islen(a) and a.k == "call" and len(a.a) == 3 and self.rigid(a.a[2]) for a in at): return False
        for k, _ in conds:
            if any(z in at for z in walk(k)): return False
        apart, n = 0, 0
        for lo in (0, 1):
            for i in range(8):
                env = {a: (PTS[(5 * i + (4 + i) * j) % len(PTS)] if lo == 0 else PTS[(5 * i + (4 + i) * j) % len(PTS)] / 60.0) for j, a in enumerate(at)}
                if len(set(env.values())) < len(env): continue
                try: u, v = value(x, env), value(y, env)
                except (ValueError, OverflowError, ZeroDivisionError, TypeError): continue
                if u is None or v is None: return False
                if u != u or v != v or abs(u) > 1e200 or abs(v) > 1e200: continue
                n += 1
                if abs(u - v) > 1e-6 * max(1.0, abs(u), abs(v)): apart += 1
            if n or any(islen(a) for a in at): break
        return n >= 3 and apart >= 3 and apart * 2 > n
    def pinned(self, xs, conds):
        """some equality that holds on the path speaks of the terms"""
        for k, v in conds:
            if v is True and k.k == "bin" and k.a[0] == "Eq" and any(z is x for x in xs for z in walk(k)): return True
        return False
    # ------------------------------------------------------------ where two terms differ
    def diff(self, x, y, inj=True, conds=(), deep=0):
        """[(x, y, kind or None, under injective constructors only)]"""
        if x is y: return []
        key = (x, y, inj)
        if key in self.memo: return self.memo[key]
        self.memo[key] = []
        r = self.memo[key] = self.diff_(x, y, inj, conds, deep)
        return r
    def diff_(self, x, y, inj, conds, deep):
        if self.ev(x) == self.ev(y): return []
        if deep > 60: return [(x, y, None, inj)]
        k = self.likes(x, y, conds)
        if k is not None: return [(x, y, k, inj)]
        for s, f in ((x, y), (y, x)):
            if f.k == "call" and f.a[0] == "it::filter" and not (s.k == "call" and s.a[0] == "it::filter") and self.narrows(f, s): return [(x, y, ("filtered",), inj)]
        if x.k == "case" or y.k == "case":
            a = [(frozenset(c.items()), v) for c, v in self.q.items(x)]
            b = [(frozenset(c.items()), v) for c, v in self.q.items(y)]
            if len(a) * len(b) > 4000: return [(x, y, None, inj)]
            return self.items(a, b, inj, deep)
        if x.k != y.k: return [(x, y, None, inj)]
        if x.k == "rec": return [(x, y, None, inj)]
        if x.k == "poly":
            return self.polys(x, y, inj, conds, deep)
        if len(x.a) != len(y.a): return [(x, y, None, inj)]
        sub = inj
        if x.k == "call":
            l = x.a[0].split("::")[-1]
            if x.a[0] != y.a[0]: return [(x, y, None, inj)]
            if l in BLIND: return []
            if l in NONINJ: return [(x, y, None, inj)]
            sub = inj and l in INJ
        elif x.k not in ("var", "tuple", "struct", "array", "arm"): sub = False
        out = []
        for i, (p, q) in enumerate(zip(x.a, y.a)):
            if isinstance(p, T) and isinstance(q, T): out += self.diff(p, q, sub, conds, deep + 1)
            elif isinstance(p, tuple) and isinstance(q, tuple):
                if len(p) != len(q): return [(x, y, None, inj)]
                for r, s in zip(p, q):
                    if isinstance(r, T) and isinstance(s, T): out += self.diff(r, s, sub, conds, deep + 1)
                    elif r != s: return [(x, y, None, inj)]
            elif p != q and not (x.k == "call" and i == 1): return [(x, y, None, inj)]
        return out
    def narrows(self, f, s):
        """f is the stream s without the numbers that compare in some way with another number"""
        ts = [z for z in f.a[1:] if isinstance(z, T)]
        if len(ts) != 2 or self.ev(ts[0]) != self.ev(s): return False
        c = ts[1].a[1] if ts[1].k == "lam" and len(ts[1].a) > 1 else None
        while isinstance(c, T) and c.k == "not": c = c.a[0]
        if not (isinstance(c, T) and c.k == "bin" and c.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")): return False
        a, b = c.a[1], c.a[2]
        if b.k == "bv": a, b = b, a
        return a.k == "bv" and b.k not in ("int", "float", "bv", "const") and not any(z.k == "bv" for z in walk(b))
    def polys(self, x, y, inj, conds, deep):
        p, q = self.q.topoly(x), self.q.topoly(y)
        a, b = self.atoms(p), self.atoms(q)
        na, nb = [e for e in a if e not in b], [e for e in b if e not in a]
        # one atom replaced by another throughout
        if len(na) == len(nb) == 1:
            z = mk("@", "hole")
            u = self.q.subst(x, {a[na[0]]: z}); v = self.q.subst(y, {b[nb[0]]: z})
            if self.ev(u) == self.ev(v): return self.diff(a[na[0]], b[nb[0]], False, conds, deep + 1)
            u = self.swap(p, na[0]); v = self.swap(q, nb[0])
            if u is not None and v is not None and self.ev(u) == self.ev(v): return self.diff(a[na[0]], b[nb[0]], False, conds, deep + 1)
        elif 1 < len(na) == len(nb) <= 3:
            # several replaced: match them by what they are
            for perm in itertools.permutations(nb):
                hs, ok = [], True
                ds = [self.diff(a[e], b[f], False, conds, deep + 1) for e, f in zip(na, perm)]
                if not all(d and all(h[2] for h in d) for d in ds): continue
                u, v = x, y
                mu = {a[e]: mk("@", "hole", i) for i, e in enumerate(na)}
                mv = {b[f]: mk("@", "hole", i) for i, f in enumerate(perm)}
                if self.ev(self.q.subst(u, mu)) == self.ev(self.q.subst(v, mv)): return [h for d in ds for h in d]
        return [(x, y, None, inj)]
    def swap(self, p, e):
        try: return self.q.frompoly(Poly({tuple((mk("@", "hole") if self.ev(at) == e else at, n) for at, n in m): c for m, c in p.items()}))
        except TooBig: return None
    # ------------------------------------------------------------ case analyses
    def items(self, A, B, inj, deep):
        """two case analyses (conditions, value): how they differ"""
        A = {(frozenset((atom(k, v) for k, v in c)), w) for c, w in A}
        B = {(frozenset((atom(k, v) for k, v in c)), w) for c, w in B}
        return self.items_(A, B, inj, deep)
    def unguarded(self, S):
        """outcomes that are not errors, without the tests whose other answer is always an error"""
        bad = lambda v: v.k == "panic" or v.k == "var" and v.a[0] == "Err"
        keep = set()
        for c, v in S:
            if not bad(v):
                for k, x in c:
                    if not (k.k == "has" and x is True): keep.add(k)
        return {(frozenset((k, x) for k, x in c if k in keep), v) for c, v in S if not bad(v)}
    def items_(self, A, B, inj, deep, strip=True):
        A, B = self.same_up(A, B)
        da, db = A - B, B - A
        if not da and not db: return []
        if deep > 40: return [(mk("@"), mk("@"), None, inj)]
        ca, cb = {}, {}
        for c, v in da: ca.setdefault(c, []).append(v)
        for c, v in db: cb.setdefault(c, []).append(v)
        if ca.keys() == cb.keys() and all(len(v) == 1 for v in list(ca.values()) + list(cb.values())):
            out = []
            for c in sorted(ca, key=lambda c: (len(c), str(sorted((order(k), str(v)) for k, v in c)))):
                hs = self.diff(ca[c][0], cb[c][0], inj, tuple(c), deep + 1)
                if hs and self.verdict(hs): return hs          # one answer with another result is enough
                out += hs
            return out
        ka = {k for c, _ in A for k, _ in c}; kb = {k for c, _ in B for k, _ in c}
        na, nb = sorted(ka - kb, key=order), sorted(kb - ka, key=order)
        if len(na) == len(nb) and 0 < len(na) <= 3:
            for perm in itertools.permutations(nb):
                m, hs = {}, []
                for k, l in zip(na, perm):
                    h, flip = self.test(k, l)
                    if h is None: break
                    m[l] = (k, flip); hs += h
                else:
                    B2 = {(frozenset((m[k][0], (not v) if m[k][1] else v) if k in m else (k, v) for k, v in c), w) for c, w in B}
                    A2, B2 = self.same_up(A, B2)
                    if any(f for _, f in m.values()) and not self.apart(A, [k for k, f in m.values() if f]): return [(mk("@"), mk("@"), None, inj)]
                    hs = [(x, y, kd, False) for x, y, kd, _ in hs]
                    if A2 == B2: return hs
                    return hs + self.items_(A2, B2, inj, deep + 1)
        # the same tests, other results for some of the answers
        if not na and not nb:
            for c, v in da:
                ws = [(d, w) for d, w in B if meets(c, d)]
                if ws and all(w is not v for _, w in ws):
                    hs = [self.diff(v, w, inj, tuple(c), deep + 1) for _, w in ws]
                    if all(h and self.verdict(h) for h in hs): return min(hs, key=len)
        if strip:
            A2, B2 = self.same_up(self.unguarded(A), self.unguarded(B))
            if A2 and B2 and A2 != B2 and (A2 != A or B2 != B):
                hs = self.items_(A2, B2, inj, deep + 1, False)
                if hs and self.verdict(hs): return hs
            r = self.leafswap(A, B)
            if r: return r
        x = min((v for _, v in da), key=order) if da else mk("@"); y = min((v for _, v in db), key=order) if db else mk("@")
        return [(mk("@", "case", x), mk("@", "case", y), None, inj)]
    def leafswap(self, A, B):
        """one constant stands for another wherever it occurs"""
        def leaves(S):
            out, st, done = {}, [z for c, v in S for z in [v] + [k for k, _ in c]], set()
            while st:
                t = st.pop()
                if t in done: continue
                done.add(t)
                if t.k in self.LIT or t.k == "array" and len(t.a) > 1 and self.ground(t): out[self.ev(t)] = t; continue
                st += [z for z in kids(t)]
            return out
        a, b = leaves(A), leaves(B)
        na, nb = [t for e, t in a.items() if e not in b], [t for e, t in b.items() if e not in a]
        if len(nb) == 1 and not na: na = [t for e, t in a.items() if t.k == nb[0].k]
        if len(na) == 1 and not nb: nb = [t for e, t in b.items() if t.k == na[0].k]
        if len(na) * len(nb) > 40: return None
        for x in na:
            for y in nb:
                k = self.likes(x, y)
                if k is None or (len(na) > 1 or len(nb) > 1) and x.k != "array": continue
                f = lambda S, m: {(frozenset((self.q.subst(t, m), v) for t, v in c), self.q.subst(w, m)) for c, w in S}
                try: A2, B2 = self.same_up(f(A, {x: y}), B)
                except Exception: continue
                if A2 == B2: return [(x, y, k, False)]
        return None
    def same_up(self, A, B):
        """give equal tests and values one representative"""
        rep = {}
        for c, v in list(A) + list(B):
            rep.setdefault(self.ev(v), v)
            for k, _ in c: rep.setdefault(("k", self.ev(k)), k)
        f = lambda S: {(frozenset((rep["k", self.ev(k)], v) for k, v in c), rep[self.ev(v)]) for c, v in S}
        return f(A), f(B)
    def test(self, k, l):
        """(holes, answers swapped) of one test that takes another's place"""
        if k.k == l.k == "bin" and k.a[0] == l.a[0] == "Lt" and self.ev(k.a[1]) == self.ev(l.a[2]) and self.ev(k.a[2]) == self.ev(l.a[1]): return [(k, l, ("strict",), False)], True
        if {k.k, l.k} == {"bin"} and k.a[0] == "Lt" and l.a[0] == "Lt":
            # a < b + c  vs  b < a ...: one side kept
            pass
        h = self.diff(k, l, False)
        if h and all(x[2] for x in h): return h, False
        return None, False
    def apart(self, A, tests):
        """results still differ where the two sides of a comparison are equal"""
        for k in tests:
            a, b = k.a[1], k.a[2]
            hit = False
            for c, v in A:
                for d, w in A:
                    if v is not w and (k, True) in c and (k, False) in d and c - {(k, True)} == d - {(k, False)}:
                        for s, t in ((a, b), (b, a)):
                            if s.k in ("int", "poly", "float"): continue
                            if self.ev(self.q.subst(v, {s: t})) != self.ev(self.q.subst(w, {s: t})): hit = True
                            else: return False
            if not hit: return False
        return True
    # ------------------------------------------------------------ verdict on a set of holes
    def verdict(self, hs):
        if not hs: return False
        if any(k and inj for _, _, k, inj in hs): return True
        if not all(k for _, _, k, _ in hs): return False
        pairs = {(self.ev(x), self.ev(y)) for x, y, _, _ in hs}
        if len(pairs) == 1: return True
        return len({k for _, _, k, _ in hs}) == 1
    # ------------------------------------------------------------ loops
    def pair(self, A, B):
        """{recurrence of B: recurrence of A} for the loops only one side has"""
        ra, rb = self.allrecs(A), self.allrecs(B)
        ua, ub = [x for x in ra if x not in rb], [x for x in rb if x not in ra]
        m = {}
        def init(x): return self.erased(self.recs[x].a[0])
        def skel(x): return self.erased(self.recs[x].a[1])
        def blur(x): return re.sub(r"\b\d+(\.\d+)?(/\d+)?\b", "#", skel(x))
        for f in (lambda x: (init(x), skel(x)), lambda x: (init(x), blur(x)), skel, blur, lambda x: (init(x), self.recs[x].a[1].k), init, lambda x: 0):
            if not ua or not ub: break
            ga, gb = {}, {}
            for x in ua: ga.setdefault(f(x), []).append(x)
            for x in ub: gb.setdefault(f(x), []).append(x)
            for k in ga:
                if k in gb and len(ga[k]) == len(gb[k]) == 1: m[gb[k][0]] = ga[k][0]
            ua = [x for x in ua if x not in m.values()]; ub = [x for x in ub if x not in m]
        return m, bool(ua or ub)
    def allrecs(self, ts):
        seen, st = {}, list(ts)
        done = set()
        while st:
            t = st.pop()
            if t in done: continue
            done.add(t)
            for x in walk(t):
                if x.k == "rec" and x.a[0] in self.recs and x.a[0] not in seen:
                    seen[x.a[0]] = x; st.append(self.recs[x.a[0]])
        return seen
    def erased(self, t):
        memo = {}
        def go(x):
            r = memo.get(x)
            if r is None:
                if x.k == "rec": r = "@"
                elif x.k == "poly": r = "poly" + str(sorted((str(c), sorted((go(at), e) for at, e in m)) for c, m in x.a[0]))
                else: r = x.k + "(" + ",".join(go(y) if isinstance(y, T) else ";".join(go(z) if isinstance(z, T) else str(z) for z in y) if isinstance(y, tuple) else str(y) for y in x.a) + ")"
                memo[x] = r
            return r
        return go(t)
    def renamed(self, t, m):
        s = {x: mk("rec", m[x.a[0]], *x.a[1:]) for x in walk(t) if x.k == "rec" and x.a[0] in m}
        return self.q.subst(t, s) if s else t

PTS = [2, 17, 5, 31, 3, 23, 11, 7, 37, 13, 29, 19, 41]
F1 = {"abs": abs, "sqrt": math.sqrt, "ln": math.log, "log2": math.log2, "log10": math.log10, "exp": math.exp, "exp2": lambda a: 2.0 ** a, "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos,
      "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "to_radians": math.radians, "to_degrees": math.degrees, "ln_1p": math.log1p, "exp_m1": math.expm1, "cbrt": lambda a: math.copysign(abs(a) ** (1 / 3), a),
      "recip": lambda a: 1 / a, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "signum": lambda a: math.copysign(1.0, a)}
F2 = {"atan2": math.atan2, "powf": lambda a, b: a ** b if a >= 0 else float("nan"), "powi": lambda a, b: a ** b, "pow": lambda a, b: a ** b if a >= 0 else float("nan"), "max": max, "min": min, "hypot": math.hypot}
def closed(t):
    if t.k == "poly": return True
    return t.k == "call" and (t.a[0].startswith("::") or re.match(r"^(<?(f64|f32|Float|num::Float|std::f64|core::f64)\b.*)?::\w+$", t.a[0])) and (len(t.a) == 3 and t.a[0].split("::")[-1] in F1 or len(t.a) == 4 and t.a[0].split("::")[-1] in F2) and all(isinstance(z, T) for z in t.a[2:])
def numcast(t):
    """the number a conversion to a float wraps"""
    if t.k == "pay" and t.a[0].k == "call" and t.a[0].a[0].split("::")[-1] == "from" and len(t.a[0].a) == 3 and t.a[0].a[2].k in ("int", "float"): return t.a[0].a[2]
    return None
def free(t):
    """the inputs of a closed formula"""
    out, st = set(), [t]
    n = 0
    while st:
        x = st.pop(); n += 1
        if n > 400: return None
        if x.k in ("int", "float"): continue
        if numcast(x) is not None: continue
        if x.k == "poly":
            for c, m in x.a[0]:
                for at, e in m:
                    if isinstance(e, T): return None
                    st.append(at)
        elif closed(x): st += list(x.a[2:])
        elif x.k in ("const", "bool", "str"): return None
        else: out.add(x)
    return out
def value(t, env):
    if t in env: return env[t]
    if t.k == "int": return t.a[0]
    if t.k == "float": return float(t.a[0]) if not isinstance(t.a[0], str) else None
    c = numcast(t)
    if c is not None: return value(c, env)
    if t.k == "poly":
        r = 0
        for c, m in t.a[0]:
            x = float(c)
            for at, e in m:
                b = value(at, env)
                if b is None: return None
                x *= float(b) ** float(e) if not (b < 0 and float(e) != int(e)) else float("nan")
            r += x
        return r
    if closed(t):
        a = [value(z, env) for z in t.a[2:]]
        if any(z is None for z in a): return None
        f = t.a[0].split("::")[-1]
        return (F1 if len(a) == 1 else F2)[f](*a)
    return None

def atom(k, v):
    """tests in one form: integer comparisons as x >= c, emptiness as a length"""
    if k.k == "call" and k.a[0].split("::")[-1] == "is_empty" and len(k.a) == 3 and isinstance(v, bool): return mk("ge", mk("call", "len", "", k.a[2]), integer(1)), not v
    if k.k == "bin" and k.a[0] == "Lt" and isinstance(v, bool) and all(isinstance(x, T) for x in k.a[1:3]):
        x, y = k.a[1], k.a[2]
        if y.k == "int": return mk("ge", lenkey(x), y), not v
        if x.k == "int" and isinstance(x.a[0], int): 
            if isint(y): return mk("ge", lenkey(y), integer(x.a[0] + 1)), v
    if k.k == "bin" and k.a[0] == "Eq" and isinstance(v, bool) and k.a[1].k == "int" and k.a[1].a[0] == 0 and islen(k.a[2]): return mk("ge", lenkey(k.a[2]), integer(1)), not v
    if k.k == "bin" and k.a[0] == "Eq" and isinstance(v, bool) and k.a[2].k == "int" and k.a[2].a[0] == 0 and islen(k.a[1]): return mk("ge", lenkey(k.a[1]), integer(1)), not v
    return k, v
def islen(x): return x.k in ("call",) and x.a[0].split("::")[-1] in ("len", "height", "nrows", "ncols") or x.k == "len"
def isint(x): return islen(x) or x.k == "cast" and re.match(r"^[ui](8|16|32|64|size)$", str(x.a[0]))
def lenkey(x): return mk("call", "len", "", *x.a[2:]) if x.k == "call" and x.a[0].split("::")[-1] == "len" else x
def meets(c, d):
    d = dict(d)
    return not any(k in d and d[k] != v for k, v in c)

# ---------------------------------------------------------------------------------------- satisfiable tests
def _val(d, t, env):
    """value of an integer or real term under an assignment of its atoms"""
    if t.k == "int": return Fraction(t.a[0])
    if t.k == "float": return Fraction(repr(t.a[0])) if isinstance(t.a[0], (int, float)) and abs(t.a[0]) < 1e300 else None
    if t.k == "poly":
        r = Fraction(0)
        for c, m in t.a[0]:
            x = Fraction(c)
            for at, e in m:
                b = env.get(d.ev(at))
                if b is None or (b == 0 and e < 0) or not isinstance(e, int): return None
                x *= b ** e
            r += x
        return r
    return env.get(d.ev(t))

def sat(d, conds):
    """True: values of the inputs that pass all the tests exist; None: not known"""
    num, others = [], {}
    for k, v in conds:
        if k.k == "ge": num.append((k, v, k.a[0], k.a[1]))
        elif k.k == "bin" and k.a[0] in ("Lt", "Eq") and isinstance(v, bool) and all(x.k not in ("str", "bool", "char") for x in k.a[1:]): num.append((k, v, k.a[1], k.a[2]))
        elif isinstance(v, (bool, int, str)):
            if others.setdefault(d.ev(k), v) != v: return None
    if not num: return True
    ats, ints = {}, set()
    consts = {Fraction(0), Fraction(1)}
    for k, v, x, y in num:
        for t in (x, y):
            try: p = d.q.topoly(t)
            except TooBig: return None
            for m, c in p.items():
                if not m: consts.add(abs(Fraction(c)))
                for at, e in m:
                    ats[d.ev(at)] = at
                    if isint(at) or k.k == "ge": ints.add(d.ev(at))
    # the atoms have to be independent of each other
    al = list(ats.values())
    if len(al) > 4 or any(x.k in ("rec", "const", "self") or any(y.k in ("rec", "self") for y in walk(x)) for x in al): return None
    for x in al:
        c = x.a[2] if islen(x) and x.k == "call" and len(x.a) == 3 else x
        while c.k == "cast" and isinstance(c.a[1], T): c = c.a[1]
        if islen(c) and c.k == "call" and len(c.a) == 3: c = c.a[2]
        if not d.rigid(c): return None
    for k, v in conds:
        # the other tests say nothing about the numbers
        if not any(k is n[0] for n in num) and any(x.k != "arg" and d.ev(x) in ats for x in walk(k)): return None
    cand = sorted({s * c + o for c in consts for s in (1, -1) for o in (-1, 0, 1, 2, Fraction(1, 2))})
    doms = [[c for c in cand if e not in ints or (c >= 0 and c.denominator == 1)] for e in ats]
    n = 1
    for x in doms: n *= len(x)
    if n > 60000: return None
    for vs in itertools.product(*doms):
        env = dict(zip(ats, vs))
        for k, v, x, y in num:
            a, b = _val(d, x, env), _val(d, y, env)
            if a is None or b is None: break
            if (a >= b if k.k == "ge" else a < b if k.a[0] == "Lt" else a == b) is not v: break
        else: return True
    return None

def reckeys(c): return frozenset((k, v) for k, v in c if any(x.k == "rec" for x in walk(k)))

def compare(pa, pb, recs, q, reach=None):
    """('same'|'differs'|'unclear', holes) of two sets of (conditions, value, _)"""
    A = {(frozenset(atom(k, x) for k, x in c.items()), v) for c, v, _ in pa if c is not None}
    B = {(frozenset(atom(k, x) for k, x in c.items()), v) for c, v, _ in pb if c is not None}
    if A == B: return "same", []
    d = Diff(q, recs, reach)
    A, B = d.same_up(A, B)
    if A == B: return "same", []
    if len(A) * len(B) > 400000: return "unclear", []
    ta = [x for c, v in A - B for x in [v] + [k for k, _ in c]]
    tb = [x for c, v in B - A for x in [v] + [k for k, _ in c]]
    m, left = d.pair(ta, tb)
    body = []
    if m:
        B = {(frozenset((d.renamed(k, m), x) for k, x in c), d.renamed(v, m)) for c, v in B}
        d.memo = {}
        for y, x in m.items():
            for h in d.diff(recs[x], d.renamed(recs[y], m), False): body.append(h[:3] + (False,))
        A, B = d.same_up(A, B)
    if A == B:
        if not body: return "same", []
        return ("differs" if d.verdict(body) else "unclear"), body
    top = d.items_(A, B, True, 0)
    if body:
        hs = [h if not any(x.k == "rec" for t in h[:2] for x in walk(t)) else h[:3] + (False,) for h in top] + body
        return ("differs" if d.verdict(hs) else "unclear"), hs
    if d.verdict(top): return "differs", top
    # results that cannot both be right for some input
    da, db = A - B, B - A
    if len(da) * len(db) <= 20000:
        for c, v in sorted(da, key=lambda z: len(z[0])):
            for e, w in db:
                if v is w or not meets(c, e): continue
                if reckeys(c) != reckeys(e): continue
                if sat(d, c | e) is not True: continue
                hs = d.diff(v, w, True, tuple(c | e))
                if hs and d.verdict(hs): return "differs", hs
    return "unclear", top

def told(hs, n=3):
    out, seen = [], set()
    for x, y, k, _ in sorted(hs, key=lambda h: (h[2] is None, size(h[0]) + size(h[1]))):
        s = "%s  vs  %s" % (show(x, 4)[:160], show(y, 4)[:160])
        if s not in seen: seen.add(s); out.append(s)
    return "; ".join(out[:n])
