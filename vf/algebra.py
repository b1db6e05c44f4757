"""Normal forms of the expression terms the Python layer builds.

Numeric terms become quotients of polynomials with rational exponents over atoms; equality is decided by cross
multiplication, so sums and products may be reordered, factored or expanded freely.  Everything else (polars methods,
native calls, conditions) is an atom whose arguments are normal forms again, with method aliases, default options and
commutative arguments removed.  Two terms with the same normal form denote the same expression; no claim is made about
terms with different ones beyond "not the same formula"."""
from __future__ import annotations
import math, zlib
from fractions import Fraction as F
from .pysym import Const, Sym, Op, Star, Term, EXT

ONE = {(): F(1)}
def frac(v):
    if isinstance(v, int): return F(v)
    g = F(repr(v))
    h = g.limit_denominator(10 ** 6)
    if h != g and h != 0 and abs(float(h) - v) <= 4e-16 * abs(v): return h
    return g

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n: r[m] = n
        else: r.pop(m, None)
    return r

_rk = {}
def rk(x):
    r = _rk.get(x)
    if r is None: r = _rk[x] = repr(x)
    return r

def mmul(a, b):
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n: d[k] = n
        else: d.pop(k, None)
    return tuple(sorted(d.items(), key=lambda z: rk(z[0])))

# positional names and defaults of the polars methods used with options
SIG = {
 "shift": [("n", 1), ("fill_value", None)], "diff": [("n", 1), ("null_behavior", "ignore")], "quantile": [("quantile",), ("interpolation", "nearest")],
 "std": [("ddof", 1)], "var": [("ddof", 1)], "skew": [("bias", True)], "kurtosis": [("fisher", True), ("bias", True)],
 "clip": [("lower_bound", None), ("upper_bound", None)], "fill_null": [("value", None), ("strategy", None), ("limit", None)], "round": [("decimals", 0), ("mode", "half_to_even")],
 "rank": [("method", "average"), ("descending", False), ("seed", None)], "is_between": [("lower_bound",), ("upper_bound",), ("closed", "both")],
 "head": [("n", 10)], "tail": [("n", 10)], "limit": [("n", 10)], "slice": [("offset",), ("length", None)], "cast": [("dtype",), ("strict", True), ("wrap_numerical", False)],
 "sort": [("descending", False), ("nulls_last", False)], "log": [("base", math.e)], "entropy": [("base", math.e), ("normalize", True)],
 "is_in": [("other",), ("nulls_equal", False)], "is_close": [("other",), ("abs_tol", 0.0), ("rel_tol", 1e-09), ("nans_equal", False)],
 "shuffle": [("seed", None)], "top_k": [("k", 5)], "bottom_k": [("k", 5)], "any": [("ignore_nulls", True)], "all": [("ignore_nulls", True)],
 "unique": [("maintain_order", False)], "value_counts": [("sort", False), ("parallel", False), ("name", None), ("normalize", False)], "cum_sum": [("reverse", False)], "cum_max": [("reverse", False)], "cum_min": [("reverse", False)], "cum_count": [("reverse", False)],
 "replace_all": [("pattern",), ("value",), ("literal", False)], "join": [("separator",), ("ignore_nulls", True)], "get": [("index",), ("null_on_oob", False)], "gather": [("indices",), ("null_on_oob", False)],
 "arg_sort": [("descending", False), ("nulls_last", False)], "sample": [("n", None), ("fraction", None), ("with_replacement", False), ("shuffle", False), ("seed", None)],
 "replace": [("old",), ("new",), ("default",), ("return_dtype", None)], "replace_strict": [("old",), ("new",), ("default",), ("return_dtype", None)],
 "ewm_mean": [("com", None), ("span", None), ("half_life", None), ("alpha", None), ("adjust", True), ("min_samples", 1), ("ignore_nulls", False)],
 "rolling_mean": [("window_size",), ("weights", None), ("min_samples", None), ("center", False)], "rolling_std": [("window_size",), ("weights", None), ("min_samples", None), ("center", False), ("ddof", 1)],
 "rolling_var": [("window_size",), ("weights", None), ("min_samples", None), ("center", False), ("ddof", 1)], "rolling_sum": [("window_size",), ("weights", None), ("min_samples", None), ("center", False)],
 "over": [("partition_by", None)], "rle_id": [], "interpolate": [("method", "linear")], "mode": [("maintain_order", False)],
}
_DTYPE_NAMES = {"int": "polars.Int64", "float": "polars.Float64", "bool": "polars.Boolean", "str": "polars.String", "polars.Utf8": "polars.String"}
EVEN = {"abs", "cosh", "cos"}
BINM = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "pow": "**", "floordiv": "//", "mod": "%", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!=", "and_": "&", "or_": "|", "xor": "^"}
NS = ("list", "str", "dt", "struct", "name", "cat", "arr", "bin", "meta")
HORIZ = {"sum_horizontal", "max_horizontal", "min_horizontal", "mean_horizontal", "all_horizontal", "any_horizontal", "struct", "concat_list", "concat_str", "coalesce", "col"}
UNORDERED = {"sum_horizontal", "max_horizontal", "min_horizontal", "mean_horizontal", "all_horizontal", "any_horizontal"}
COLUMNISH = {"struct", "concat_list", "concat_str", "coalesce", "sum_horizontal", "max_horizontal", "min_horizontal", "mean_horizontal", "all_horizontal", "any_horizontal"}

class R:
    """a quotient of polynomials"""
    __slots__ = ("n", "d", "f")
    def __init__(self, n, d=ONE): self.n, self.d, self.f = n, d, None

class Algebra:
    def __init__(self):
        self.fval = {}
        self.tab = []            # interned quotients
        self.typ = {}            # what the current path knows about the types of its unknowns
        self.cache = {}
        self.unknown = set()     # constructs outside the modelled vocabulary met so far

    # ---------- quotients
    def const(self, v): return R({(): frac(v)} if v else {})
    def atom(self, key): return R({((key, F(1)),): F(1)})
    def fix(self, p):
        """expand base-atoms whose exponent became whole"""
        out = {}
        pend = []
        for m, c in p.items():
            for k, e in m:
                if k[0] == "B" and e.denominator == 1:
                    pend.append((m, c, k, int(e))); break
            else:
                out = padd(out, {m: c})
        return out, pend
    def pmul(self, a, b):
        """product of polynomials -> (poly, extra denominators)"""
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n: r[m] = n
                else: r.pop(m, None)
        return r
    def norm(self, r):
        n, pn = self.fix(r.n)
        d, pd = self.fix(r.d)
        if pn or pd:
            out = R(n, d) if not pd else None
            if pd:      # denominators with expandable parts
                den = R(d)
                for m, c, k, e in pd:
                    rest = tuple(x for x in m if x[0] != k)
                    den = self.add(den, self.mul(R({rest: c}), self.ipow(self.tab[k[1]], e)))
                num = self.norm(R(r.n))
                return self.div(num, den)
            for m, c, k, e in pn:
                rest = tuple(x for x in m if x[0] != k)
                out = self.add(out, self.div(self.mul(R({rest: c}), self.ipow(self.tab[k[1]], e)), R(r.d)))
            return out
        if not n: return R({}, ONE)
        if len(d) == 1:
            (m, c), = d.items()
            if m or c != 1:
                inv = tuple((k, -e) for k, e in m)
                n2 = {}
                for mm, cc in n.items(): n2[mmul(mm, inv)] = cc / c
                n, d = n2, ONE
                if any(k[0] == "B" and e.denominator == 1 for mm in n for k, e in mm): return self.norm(R(n, d))
        elif len(d) > 1:
            # proportional numerator and denominator
            if len(n) == len(d):
                m0 = min(d, key=rk)
                for mn in n:
                    q = mmul(mn, tuple((k, -e) for k, e in m0))
                    c = n[mn] / d[m0]
                    if {mmul(q, m): c * x for m, x in d.items()} == n: return self.norm(R({q: c}, ONE))
            c = d[min(d, key=rk)]
            if c != 1:
                n = {m: x / c for m, x in n.items()}; d = {m: x / c for m, x in d.items()}
        return R(n, d)
    def add(self, a, b, s=1):
        if a.d == b.d: return self.norm(R(padd(a.n, b.n, s), a.d))
        return self.norm(R(padd(self.pmul(a.n, b.d), self.pmul(b.n, a.d), s), self.pmul(a.d, b.d)))
    def mul(self, a, b): return self.norm(R(self.pmul(a.n, b.n), self.pmul(a.d, b.d)))
    def div(self, a, b):
        if not b.n: return self.atom(("div0", self.key(a)))
        return self.norm(R(self.pmul(a.n, b.d), self.pmul(a.d, b.n)))
    def ipow(self, a, e):
        if e < 0: return self.div(R(ONE), self.ipow(a, -e))
        r = R(ONE)
        for _ in range(e): r = self.mul(r, a)
        return r
    def eq(self, a, b):
        if a.n == b.n and a.d == b.d: return True
        fa, fb = self.finger(a), self.finger(b)
        if fa is not None and fb is not None and abs(fa - fb) > 1e-5 * (abs(fa) + abs(fb)) + 1e-300: return False
        return not self.add(a, b, -1).n
    def finger(self, r):
        """value of the quotient with its atoms replaced by fixed pseudo-random numbers: different values prove the quotients different"""
        if r.f is not None: return r.f
        try:
            v = self._fpoly(r.n) / self._fpoly(r.d)
            if v != v or abs(v) == math.inf: v = None
        except (OverflowError, ZeroDivisionError): v = None
        r.f = v
        return v
    def _fpoly(self, p):
        tot, big = 0j, 0.0
        for m, c in p.items():
            t = complex(float(c))
            for k, e in m:
                b = self.fval.get(k)
                if b is None:
                    b = self.finger(self.tab[k[1]]) if k[0] == "B" else 1.0 + (zlib.crc32(rk(k).encode()) % 1000003) / 1000003
                    if b is None: raise ZeroDivisionError
                    self.fval[k] = b
                t *= complex(b) ** float(e)
            tot += t
            big = max(big, abs(t))
        if p and abs(tot) < 1e-7 * big: raise ZeroDivisionError      # cancellation: no usable value
        return tot
    def intern(self, r):
        for i, x in enumerate(self.tab):
            if self.eq(x, r): return i
        self.tab.append(r)
        return len(self.tab) - 1
    def power(self, a, e):
        """a ** e for a rational e"""
        if e.denominator == 1: return self.ipow(a, int(e))
        if len(a.n) == 1 and len(a.d) == 1:
            (m, c), = a.n.items(); (m2, c2), = a.d.items()
            q = c / c2
            s = self.root(q, e)
            if s is not None:
                m = tuple((k, x * e) for k, x in mmul(m, tuple((k, -x) for k, x in m2)))
                return self.norm(R({tuple((k, x) for k, x in m): s}))
        i = self.intern(a)
        return self.norm(R({((("B", i), e),): F(1)}))
    @staticmethod
    def root(q, e):
        if q <= 0: return None
        num, den = e.numerator, e.denominator
        a, b = round(q.numerator ** (1 / den)), round(q.denominator ** (1 / den))
        if a ** den == q.numerator and b ** den == q.denominator: return F(a, b) ** num
        return None
    def key(self, r):
        """hashable canonical key of a quotient"""
        if isinstance(r, tuple): return r
        if len(r.d) == 1 and r.d == ONE:
            if not r.n: return ("num", F(0))
            if len(r.n) == 1:
                (m, c), = r.n.items()
                if not m: return ("num", c)
                if len(m) == 1 and c == 1 and m[0][1] == 1 and m[0][0][0] != "B": return m[0][0]
        return ("Q", self.intern(r))
    def sign(self, r):
        """a quotient up to sign: (canonical representative, sign)"""
        for i, x in enumerate(self.tab):
            if self.eq(x, r): return self.key(r), 1
            if self.eq(x, R({m: -c for m, c in r.n.items()}, r.d)): return self.key(x), -1
        k = self.key(r)
        if k[0] == "num": return (("num", abs(k[1])), 1 if k[1] >= 0 else -1)
        if k[0] == "Q" and len(r.n) == 1:
            (m, c), = r.n.items()
            if c < 0: return self.key(R({m: -c}, r.d)), -1
        return k, 1

    # ---------- terms
    def nf(self, t):
        """canonical key of a term"""
        return self.key(self.q(t))
    def q(self, t):
        """quotient of a term (non-numeric terms are single atoms)"""
        ck = (t, id(self.typ)) if isinstance(t, (Op, Sym, Star)) else None
        if ck is not None and ck in self.cache: return self.cache[ck]
        r = self._q(t)
        if isinstance(r, tuple): r = self.const(r[1]) if r[0] == "num" else self.tab[r[1]] if r[0] == "Q" else self.atom(r)
        if ck is not None: self.cache[ck] = r
        return r
    def set_typ(self, typ):
        self.typ = typ
        self.cache = {}
    def _q(self, t):
        if isinstance(t, Const):
            if isinstance(t.v, bool) or t.v is None or isinstance(t.v, (str, bytes)): return ("k", type(t.v).__name__, t.v)
            if isinstance(t.v, (int, float)):
                if isinstance(t.v, float) and (math.isinf(t.v) or math.isnan(t.v)):
                    if t.v == -math.inf: return R({((("k", "float", "inf"), F(1)),): F(-1)})
                    return ("k", "float", repr(t.v))
                return self.const(t.v)
            return ("k", type(t.v).__name__, repr(t.v))
        if isinstance(t, Sym):
            ty = self.typ.get(t)
            if ty and len(ty) == 1 and "none" in ty: return ("k", "NoneType", None)
            return ("sym", t.name)
        if isinstance(t, Star): return ("*", self.nf(t.t))
        if not isinstance(t, Op):
            if isinstance(t, tuple): return ("tuple",) + tuple(self.nf(x) if isinstance(x, (Term, tuple)) else ("k", type(x).__name__, x) for x in t)
            return ("k", type(t).__name__, t)
        m = getattr(self, "o_" + t.op, None)
        if m is not None: return m(t)
        if t.op not in ("list", "tuple", "set", "obj", "enum", "elem", "index", "key", "val", "range", "len", "class", "func", "filtered", "fstr", "slice"): self.unknown.add(t.op)
        return (t.op,) + tuple(self.nf(x) if isinstance(x, Term) else self._q(x) if isinstance(x, tuple) else ("k", "raw", x) for x in t.args)
    def o_set(self, t): return ("set",) + tuple(sorted({self.nf(x) for x in t.args}, key=rk))
    def o_tuple(self, t): return ("list",) + tuple(self.nf(x) for x in t.args)
    def o_list(self, t): return ("list",) + tuple(self.nf(x) for x in t.args)
    def o_dict(self, t): return ("dict",) + tuple(sorted(((self.nf(k), self.nf(v)) for k, v in t.args), key=rk))
    def o_ext(self, t):
        n = _DTYPE_NAMES.get(t.args[0], t.args[0])
        if n in ("math.pi", "numpy.pi"): return self.const(math.pi)
        if n in ("math.e", "numpy.e"): return self.const(math.e)
        if n in ("math.inf", "numpy.inf"): return ("k", "float", "inf")
        if n in ("math.nan", "numpy.nan"): return ("k", "float", "nan")
        return ("ext", n)
    def o_un(self, t):
        o, a = t.args
        if o == "-":
            x = self.q(a)
            return R({m: -c for m, c in x.n.items()}, x.d)
        if o == "+": return self.q(a)
        if o == "~": return self.neg(self.nf(a))
        return ("un", o, self.nf(a))
    def neg(self, k):
        if k[0] == "not": return k[1]
        if k[0] == "lt": return ("le",) + self.flip(k[1])
        if k[0] == "le": return ("lt",) + self.flip(k[1])
        if k[0] == "ne": return ("eq", k[1])
        if k[0] == "eq": return ("ne", k[1])
        if k[0] in ("any_horizontal", "all_horizontal"): return ("all_horizontal" if k[0][1] == "n" else "any_horizontal", tuple(sorted((self.neg(x) for x in k[1]), key=rk)), k[2])
        if k[0] == "call" and k[1] in ("is_null", "is_not_null") and len(k) == 4: return ("call", "is_not_null" if k[1] == "is_null" else "is_null") + k[2:]
        return ("not", k)
    def flip(self, k):
        r = self.unkey(k)
        return (self.key(R({m: -c for m, c in r.n.items()}, r.d)),)
    def unkey(self, k):
        if k[0] == "num": return self.const(0) if k[1] == 0 else R({(): k[1]})
        if k[0] == "Q": return self.tab[k[1]]
        return self.atom(k)
    def num(self, t):
        """operand of arithmetic: a literal counts as its number"""
        if isinstance(t, Op) and t.op == "call" and t.args[0] == EXT("polars.lit") and t.args[1] and isinstance(t.args[1][0], Const) and isinstance(t.args[1][0].v, (int, float)) and not isinstance(t.args[1][0].v, bool):
            return self.const(t.args[1][0].v)
        r = self.q(t)
        k = self.key(r)
        if k[0] == "call" and k[1] == "alias": return self.unkey(k[2])
        if k[0] == "lit" and k[2] is None and k[1][0] == "sym" and self.typ.get(Sym(k[1][1])) and not set(self.typ[Sym(k[1][1])]) & {"str", "pl.Expr"}: return self.unkey(k[1])
        return r
    def o_bin(self, t): return self.bin(t.args[0], t.args[1], t.args[2])
    def bin(self, o, a, b):
        if o == "+" and (isinstance(a, Op) and a.op in ("list", "tuple") or isinstance(b, Op) and b.op in ("list", "tuple")): return ("concat", self.nf(a), self.nf(b))
        if o in ("+", "-"): return self.add(self.num(a), self.num(b), 1 if o == "+" else -1)
        if o == "*": return self.mul(self.num(a), self.num(b))
        if o == "/": return self.div(self.num(a), self.num(b))
        if o == "**":
            e = self.key(self.num(b))
            if e[0] == "num" and abs(e[1]) <= 6: return self.power(self.num(a), e[1])
            return ("pow", self.key(self.num(a)), e)
        if o in ("&", "|"):
            ks = set()
            for x in (a, b):
                k = self.nf(x)
                ks |= set(k[1]) if k[0] == o else {k}
            unit = ("k", "bool", o == "&")
            ks = {k for k in ks if k != unit and k != ("lit", unit, None)} or {unit}
            if len(ks) == 1: return ks.pop()
            return (o, tuple(sorted(ks, key=rk)))
        if o in ("<", "<=", ">", ">=", "==", "!="): return self.cmp(o, a, b)
        return ("bin", o, self.key(self.num(a)), self.key(self.num(b)))
    def o_cmp(self, t): return self.cmp(*t.args)
    def cmp(self, o, a, b):
        if o in ("is", "is not", "in", "not in"): return ("pycmp", o, self.nf(a), self.nf(b))
        x, y = self.num(a), self.num(b)
        if o in (">", ">="): x, y, o = y, x, {">": "<", ">=": "<="}[o]
        d = self.add(x, y, -1)
        if o in ("<", "<="): return ("lt" if o == "<" else "le", self.pos(d))
        k = sorted((self.pos(d), self.pos(R({m: -c for m, c in d.n.items()}, d.d))), key=rk)[0]
        return ("eq" if o == "==" else "ne", k)
    def pos(self, r):
        """scaled by a positive constant so that the leading coefficient is 1 or -1"""
        if not r.n: return ("num", F(0))
        ms = [m for m in r.n if m] or list(r.n)
        c = abs(r.n[min(ms, key=rk)])
        return self.key(R({m: x / c for m, x in r.n.items()}, r.d))
    def o_attr(self, t): return ("attr", self.nf(t.args[0]), t.args[1])
    def o_sub(self, t): return ("sub", self.nf(t.args[0]), self.nf(t.args[1]))
    def is_str(self, t):
        return isinstance(t, Const) and isinstance(t.v, str) or isinstance(t, Op) and t.op == "fstr" or isinstance(t, Term) and self.typ.get(t) and set(self.typ[t]) == {"str"}
    def colish(self, t):
        """a string where polars reads a column name"""
        if isinstance(t, Star): return ("*", self.colish(t.t))
        if self.is_str(t): return ("call", "col", self.nf(t), ())
        if isinstance(t, Op) and t.op in ("list", "tuple"): return ("list",) + tuple(self.colish(x) for x in t.args)
        return self.nf(t)
    def flat(self, args):
        out = []
        for a in args:
            if isinstance(a, Op) and a.op in ("list", "tuple"): out += list(a.args)
            else: out.append(a)
        return out
    def options(self, name, args, kw, start=0):
        """arguments with names, defaults removed"""
        sig = SIG.get(name)
        o = {}
        if sig is None:
            return tuple(self.nf(a) for a in args), tuple((k, self.nf(v)) for k, v in sorted(kw))
        for (s, a) in zip(sig, args): o[s[0]] = a
        rest = args[len(sig):]
        for k, v in kw: o[k] = v
        for s in sig:
            if len(s) == 2 and s[0] in o and isinstance(o[s[0]], Const) and type(o[s[0]].v) in (type(s[1]), int, float) and o[s[0]].v == s[1] and (o[s[0]].v is None) == (s[1] is None): del o[s[0]]
        return tuple(self.nf(a) for a in rest), tuple((k, self.nf(v)) for k, v in sorted(o.items()))
    def o_call(self, t):
        f, args, kw = t.args
        if isinstance(f, Op) and f.op == "pkg":
            n = f.args[0].split(".")[-1]
            if n in ("str_to_expr", "lr_formula", "to_expr") or f.args[0] in _coercions():
                x = args[0]
                if self.is_str(x) and n != "lr_formula": return ("call", "col", self.nf(x), ())
                if isinstance(x, Op) and x.op in ("call", "bin", "cmp", "un"): return self.q(x)
                ty = self.typ.get(x)
                if ty and set(ty) == {"pl.Expr"}: return self.q(x)
                return ("coerce", n if n == "lr_formula" else "expr", self.nf(x))
            self.unknown.add("pkg call " + n)
            return ("pkg", n, tuple(self.nf(a) for a in args), tuple((k, self.nf(v)) for k, v in kw))
        if isinstance(f, Op) and f.op == "ext": return self.ext_call(f.args[0], args, kw)
        if isinstance(f, Op) and f.op == "attr": return self.method(f.args[0], f.args[1], args, kw)
        return ("apply", self.nf(f), tuple(self.nf(a) for a in args), tuple((k, self.nf(v)) for k, v in kw))
    def ext_call(self, n, args, kw):
        if n.endswith("register_plugin_function"):
            d = dict(kw)
            a = d.get("args")
            a = self.flat([a]) if a is not None else []
            k = d.get("kwargs")
            kk = self.nf(k) if k is not None and k != Const(None) else ("dict",)
            flags = tuple(sorted((x, self.nf(v)) for x, v in d.items() if x not in ("args", "kwargs", "plugin_path", "function_name") and v != Const(False)))
            return ("native", self.nf(d.get("function_name", Const(None))), tuple(self.colish(x) for x in a), kk, flags)
        s = n.split(".")[-1]
        if n.startswith("polars.") and n.count(".") == 1:
            if s in ("struct", "concat_list", "concat_str", "coalesce", "sum_horizontal", "max_horizontal", "min_horizontal", "mean_horizontal", "all_horizontal", "any_horizontal"):
                ks = [self.colish(a) for a in self.flat(args)] + [("call", "alias", self.colish(v), (("k", "str", k),)) for k, v in kw if s == "struct" and k not in ("schema", "eager")]
                rest = tuple((k, self.nf(v)) for k, v in kw if s != "struct" or k in ("schema", "eager"))
                if s in UNORDERED:
                    ks.sort(key=rk)
                    if len(ks) == 1 and ks[0][0] != "*": return self.unkey(ks[0])
                return (s, tuple(ks), rest)
            if s == "lit":
                d = dict(kw)
                dt = d.get("dtype", args[1] if len(args) > 1 else None)
                v = args[0] if args else d.get("value")
                if dt is None or dt == Const(None):
                    if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool): return self.const(v.v) if not isinstance(v.v, float) or math.isfinite(v.v) else self._q(v)
                    return ("lit", self.nf(v), None)
                return ("lit", self.nf(v), self.nf(dt))
            if s == "col":
                fl = self.flat(args)
                if len(fl) == 1: return ("call", "col", self.nf(fl[0]), ())
                return ("cols", tuple(self.nf(a) for a in fl))
            if s in ("corr", "cov") and len(args) >= 2:
                two = sorted((self.colish(a) for a in args[:2]), key=rk)
                return (s, tuple(two), tuple(self.nf(a) for a in args[2:]), tuple((k, self.nf(v)) for k, v in kw if (k, v) not in (("method", Const("pearson")), ("ddof", Const(1)))))
            if s == "len" and not args: return ("len",)
            if s == "count" and not args: return ("len",)
            if s in ("all", "exclude") : return (s, tuple(self.nf(a) for a in self.flat(args)), tuple((k, self.nf(v)) for k, v in kw))
        if s in ("abs",) and len(args) == 1 and n in ("abs", "math.fabs", "numpy.abs"): return self.even("abs", args[0])
        if n in ("math.sqrt", "numpy.sqrt") and len(args) == 1: return self.power(self.num(args[0]), F(1, 2))
        if n in ("math.log", "numpy.log") and len(args) == 1: return ("call", "log", self.key(self.num(args[0])), ())
        if n in ("math.exp", "numpy.exp") and len(args) == 1: return ("call", "exp", self.key(self.num(args[0])), ())
        if n in ("pow", "math.pow") and len(args) == 2: return self.bin("**", *args)
        if n in ("float",) and len(args) == 1: return self.q(args[0])
        return ("fn", n, tuple(self.nf(a) for a in args), tuple((k, self.nf(v)) for k, v in kw))
    def even(self, name, a):
        k, _ = self.sign(self.num(a))
        return ("call", name, k, ())
    def method(self, b, m, args, kw):
        if m in BINM and len(args) == 1 and not kw: return self.bin(BINM[m], b, args[0])
        if m in ("and_", "or_") and args and not kw and not any(isinstance(x, Star) or isinstance(x, Op) and x.op == "starred" for x in args):
            cur = b
            for x in args: cur = Op("bin", BINM[m], cur, x)
            return self.bin(BINM[m], cur.args[1], cur.args[2])
        if m in ("sqrt", "cbrt") and not args: return self.power(self.num(b), F(1, 2 if m == "sqrt" else 3))
        if m == "square" and not args: return self.ipow(self.num(b), 2)
        if m == "neg" and not args: return self.o_un(Op("un", "-", b))
        if m == "not_" and not args: return self.neg(self.nf(b))
        if m == "dot" and len(args) == 1:
            return self.agg("sum", self.mul(self.num(b), self.unkey(self.colish(args[0])) if self.is_str(args[0]) else self.num(args[0])), ())
        if m in EVEN and not args: return self.even(m, b)
        if m in ("sum", "mean", "median") and not args and not kw: return self.agg(m, self.num(b), ())
        if m in ("rechunk",) and not args: return self.q(b)
        if m == "log" and len(args) == 1 and not kw and args[0] == EXT("math.e"): args = ()
        if m in ("then", "otherwise"):
            return self.when(b, m, args)
        if m == "is_between":
            d = dict(self.options(m, args, kw)[1])
            if d.get("closed", ("k", "str", "both")) in (("k", "str", "both"),):
                raw = dict(zip(("lower_bound", "upper_bound"), args)); raw.update(dict(kw))
                return self.bin("&", Op("cmp", "<=", raw["lower_bound"], b), Op("cmp", "<=", b, raw["upper_bound"]))
        if m == "alias" and len(args) == 1:
            k = self.nf(b)
            if k[0] == "call" and k[1] == "alias": k = k[2]
            return ("call", "alias", k, (self.nf(args[0]),))
        if m in ("over", "sort_by", "filter", "fill_null", "fill_nan", "clip", "struct", "is_in", "gather", "append") or True:
            pos, opts = self.options(m, args, kw)
            if m in ("over", "sort_by"):
                pos, opts = self.options("", [*args], kw)
                cs = tuple(self.colish(a) for a in self.flat(args))
                opts = tuple(o for o in opts if o[1] not in (("k", "bool", False),))
                return ("call", m, self.nf(b), cs, opts)
            if m == "filter":
                ks = set()
                for a in self.flat(args):
                    k = self.nf(a)
                    ks |= set(k[1]) if k[0] == "&" else {k}
                return ("call", "filter", self.nf(b), tuple(sorted(ks, key=rk)), opts)
            if m in ("select", "with_columns", "agg", "group_by", "partition_by", "drop", "sort") and args:
                return ("call", m, self.nf(b), tuple(self.colish(a) for a in self.flat(args)), opts if SIG.get(m) is None else tuple((k, self.nf(v)) for k, v in sorted(kw)))
            # namespaces are part of the method name
            base, name = b, m
            if isinstance(b, Op) and b.op == "attr" and b.args[1] in NS and not (isinstance(b.args[0], Sym) and b.args[0].name == "self"):
                base, name = b.args[0], b.args[1] + "." + m
            k = self.key(self.num(base)) if not isinstance(base, Const) else self.nf(base)
            if not pos and not opts: return ("call", name, k, ())
            return ("call", name, k, pos, opts)
    def agg(self, m, r, opts):
        """constant factors come out of sums and means"""
        if r.n:
            ms = [x for x in r.n if x] or list(r.n)
            c = r.n[min(ms, key=rk)]
            if c != 1 and (len(r.n) > 1 or ms[0]):
                inner = self.key(R({x: y / c for x, y in r.n.items()}, r.d))
                return R({((("call", m, inner, ()), F(1)),): c})
        return ("call", m, self.key(r), ())
    def when(self, b, m, args):
        """pl.when(c).then(a)[.when(..).then(..)].otherwise(z) as nested choices"""
        chain = []
        cur = Op("call", Op("attr", b, m), tuple(args), ())
        last = Const(None)
        if m == "otherwise":
            last, cur = args[0], b
        def atom(x): return self.colish(x) if self.is_str(x) else self.key(self.num(x))
        while isinstance(cur, Op) and cur.op == "call" and isinstance(cur.args[0], Op) and cur.args[0].op == "attr" and cur.args[0].args[1] == "then":
            th = cur.args[1][0]
            w = cur.args[0].args[0]
            if not (isinstance(w, Op) and w.op == "call"): return ("call", m, self.nf(b), tuple(self.nf(a) for a in args), ())
            ks = set()
            for a in self.flat(w.args[1]):
                k = self.nf(a)
                ks |= set(k[1]) if k[0] == "&" else {k}
            cond = ("&", tuple(sorted(ks, key=rk))) if len(ks) > 1 else ks.pop() if ks else ("k", "bool", True)
            chain.append((cond, atom(th)))
            wf = w.args[0]
            if wf == EXT("polars.when"): break
            if isinstance(wf, Op) and wf.op == "attr" and wf.args[1] == "when": cur = wf.args[0]
            else: return ("call", m, self.nf(b), tuple(self.nf(a) for a in args), ())
        else:
            return ("call", m, self.nf(b), tuple(self.nf(a) for a in args), ())
        out = atom(last)
        for c, a in chain: out = ("ite", c, a, out)
        return out

    # ---------- printing
    def show(self, k, depth=0):
        if isinstance(k, R): k = self.key(k)
        if depth > 14: return "…"
        s = lambda x: self.show(x, depth + 1)
        if not isinstance(k, tuple) or not k: return repr(k)
        if k[0] == "num": return str(k[1]) if k[1].denominator < 10 ** 6 else repr(float(k[1]))
        if k[0] == "k": return repr(k[2])
        if k[0] == "sym": return k[1]
        if k[0] in ("Q", "B"): 
            r = self.tab[k[1]]
            n = self.spoly(r.n, depth)
            return "(%s)" % n if r.d == ONE else "((%s)/(%s))" % (n, self.spoly(r.d, depth))
        if k[0] == "call":
            if k[1] == "col": return "col(%s)" % s(k[2])
            return "%s.%s(%s)" % (s(k[2]), k[1], ", ".join([s(x) for x in k[3]] + ["%s=%s" % (a, s(v)) for a, v in (k[4] if len(k) > 4 else ())]))
        if k[0] == "native": return "native %s(%s; %s; %s)" % (s(k[1]), ", ".join(s(x) for x in k[2]), s(k[3]), ", ".join("%s=%s" % (a, s(v)) for a, v in k[4]))
        if k[0] == "dict": return "{%s}" % ", ".join("%s: %s" % (s(a), s(b)) for a, b in k[1:])
        if k[0] in ("lt", "le", "eq", "ne"): return "%s %s 0" % (s(k[1]), {"lt": "<", "le": "<=", "eq": "==", "ne": "!="}[k[0]])
        if k[0] in ("&", "|"): return "(%s)" % (" %s " % k[0]).join(s(x) for x in k[1])
        return "%s(%s)" % (k[0], ", ".join(s(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else "[%s]" % ", ".join(s(y) for y in x) if isinstance(x, tuple) else repr(x) for x in k[1:]))
    def spoly(self, p, depth):
        out = []
        for m, c in sorted(p.items(), key=lambda z: rk(z[0])):
            fs = [self.show(k, depth + 1) + ("" if e == 1 else "^%s" % e) for k, e in m]
            if c != 1 or not fs: fs.insert(0, str(c) if c.denominator < 10 ** 6 else repr(float(c)))
            out.append("*".join(fs))
        return " + ".join(out) or "0"

def _coercions():
    from . import pysym
    return pysym.COERCIONS
