"""C26: what the native routines assume about sizes, windows, counts and orders is checked before they run, with a clear error."""
RULE = ("for every builder whose native routine assumes a bound on a size, window, count, order or fraction, the builder is interpreted on every path with that parameter unknown: each path that builds an expression must have tested the bound (the interval its tests leave must lie within it), "
        "and with the parameter at and beyond the bound every path must raise; inputs the native routine cannot take (no features, other lengths, other distances, empty lists) must raise on every path; "
        "the exported native routines refuse (Err) under exactly the conditions of the routine of the same name in spec/ref/native, where both test the same quantities")
TECHNIQUE = "path-sensitive abstract interpretation of the Python builders (intervals left by their tests) and of MIR (refusal conditions against a reference)"
TRUST = ["numbers other than NaN are compared as a total order", "the table of bounds in this check states what the native routines assume", "the reference routines in spec/ref/native refuse exactly when they should"]
import math, re
from fractions import Fraction
from .. import refs
from .. import pysym as S
from ..pysym import Const, Sym
from ..equiv import pair, live
from .c18 import refusals

K, L, M, N, ST, SR, TS = ("polars_ds.exprs." + x for x in ("expr_knn", "expr_linear", "metrics", "num", "stats", "string", "ts_features"))
def cols(n): return S.LList([Sym("column%d" % i) for i in range(n)])
def nums(*v): return S.LList([Const(x) for x in v])
# builder, parameter, relation, bound, whole numbers?, other parameters
BOUNDS = [
    (K, "query_knn_ptwise", "k", ">=", 1, True, {}), (K, "query_knn_avg", "k", ">=", 1, True, {}), (K, "query_radius_ptwise", "r", ">", 0, False, {}),
    (L, "recursive_lin_reg", "start_with", ">=", 1, True, {}), (L, "rolling_lin_reg", "window_size", ">=", 2, True, {"x": cols(1), "add_bias": Const(False)}),
    (M, "query_mase", "freq", ">=", 1, True, {}),
    (N, "principal_components", "k", ">=", 1, True, {}), (N, "psi", "n_bins", ">=", 2, True, {}), (N, "rfft", "n", ">=", 2, True, {}),
    (ST, "winsorize", "q_low", ">", 0, False, {"q_high": Const(0.95)}), (ST, "winsorize", "q_low", "<", 1, False, {"q_high": Const(0.95)}), (ST, "winsorize", "q_high", "<", 1, False, {"q_low": Const(0.05)}), (ST, "winsorize", "q_high", ">", 0, False, {"q_low": Const(0.05)}),
    (ST, "random_null", "pct", ">", 0, False, {}), (ST, "random_null", "pct", "<", 1, False, {}), (ST, "random_binomial", "n", ">=", 1, True, {}),
    (SR, "str_nearest", "threshold", ">", 0, True, {}), (SR, "str_tversky_sim", "alpha", ">=", 0, False, {"beta": Const(1.0)}), (SR, "str_tversky_sim", "beta", ">=", 0, False, {"alpha": Const(1.0)}),
    (TS, "query_mean_n_abs_max", "n_maxima", ">=", 1, True, {}), (TS, "query_ar_coeffs", "lag", ">=", 1, True, {}), (TS, "query_sample_entropy", "m", ">=", 2, True, {}),
    (TS, "query_approx_entropy", "m", ">=", 2, True, {}), (TS, "query_approx_entropy", "filtering_level", ">", 0, False, {}), (TS, "query_knn_entropy", "k", ">=", 1, True, {}),
    (TS, "query_transfer_entropy", "lag", ">=", 1, True, {}), (TS, "query_permute_entropy", "n_dims", ">=", 2, True, {}), (TS, "query_permute_entropy", "tau", ">=", 1, True, {}),
]
# builder, parameters that have to be refused, in words
CASES = [(K, f, {"dist": Const(d)}, "distance %s" % d) for f in ("query_knn_ptwise", "query_knn_avg", "query_radius_ptwise", "query_nb_cnt") for d in ("cosine", "h", "haversine")] + [
    (K, "within_dist_from", {"features": cols(3), "pt": nums(1.0, 2.0, 3.0), "dist": Const(d)}, "haversine in three dimensions") for d in ("h", "haversine")] + [
    (K, "is_knn_from", {"features": cols(3), "pt": nums(1.0, 2.0, 3.0), "dist": Const(d)}, "haversine in three dimensions") for d in ("h", "haversine")] + [
    (K, f, {"features": cols(2), "pt": nums(1.0, 2.0), "dist": Const("nothing")}, "an unknown distance") for f in ("within_dist_from", "is_knn_from")] + [
    (N, "principal_components", {"features": cols(n), "k": Const(k)}, "%d components of %d features" % (k, n)) for n in (1, 2, 3, 5) for k in (n + 1, n + 4)] + [
    (L, "rolling_lin_reg", {"x": cols(n), "window_size": Const(w), "add_bias": Const(False)}, "%d features in a window of %d" % (n, w)) for n, w in ((3, 2), (4, 3), (6, 2))] + [
    (L, "lin_reg", {"target": S.LList([])}, "no target"),
    (N, "psi_w_breakpoints", {"breakpoints": S.LList([])}, "no breakpoints"),
    (N, "detrend", {"method": Const("nothing")}, "an unknown method"),
    (ST, "f_test", {"variables": S.LList([])}, "no variables"),
    (ST, "winsorize", {"q_low": Const(0.5), "q_high": Const(0.5)}, "equal quantiles"), (ST, "winsorize", {"q_low": Const(0.75), "q_high": Const(0.25)}, "quantiles in reverse"),
    (ST, "perturb", {"epsilon": Const(float("inf"))}, "infinite noise"), (ST, "perturb", {"epsilon": Const(float("nan"))}, "noise that is not a number"), (ST, "perturb", {"epsilon": Const(float("-inf"))}, "infinite noise"),
    (ST, "jitter", {"std": Const(-1.0)}, "a negative deviation"), (ST, "jitter", {"std": Const(-0.001)}, "a negative deviation"),
    (ST, "random_int", {"lower": Const(3), "upper": Const(3)}, "an empty range"),
    (ST, "corr", {"method": Const("nothing")}, "an unknown method"), (ST, "add_noise", {"noise_type": Const("nothing")}, "an unknown kind of noise"),
    (SR, "str_nearest", {"metric": Const("nothing")}, "an unknown metric"), (SR, "normalize_string", {"form": Const("NFX")}, "an unknown form"),
    (SR, "similar_to_vocab", {"metric": Const("nothing")}, "an unknown metric"), (SR, "similar_to_vocab", {"strategy": Const("nothing")}, "an unknown strategy"),
    (TS, "query_similar_count", {"query": nums(1.0)}, "a query of one value"), (TS, "query_similar_count", {"query": S.LList([])}, "an empty query"), (TS, "query_similar_count", {"metric": Const("nothing")}, "an unknown metric"),
    (TS, "query_knn_entropy", {"dist": Const("nothing")}, "an unknown distance"), (TS, "query_knn_entropy", {"dist": Const("l1")}, "distance l1"),
    (TS, "query_ar_coeffs", {"null_policy": Const("nothing")}, "an unknown null policy"),
]

def within(path, C, name, rel, b):
    """do the tests on this path put the parameter within the bound?  None, or a value outside it that they let through"""
    lo, los, hi, his, no = None, False, None, False, set()
    for k, _, _ in C.key_conds(path):
        if k[0] not in ("lt", "le", "eq", "ne"): continue
        try: i = C.interval(k)
        except Exception: i = None
        if i is None: continue
        m, kind, v = i
        if not (len(m) == 1 and C.A.show(m[0][0]) == name if hasattr(C.A, "show") and m else False) and not mono(m, name): continue
        v = Fraction(v)
        if kind in (">", ">=") and (lo is None or v > lo or v == lo and kind == ">"): lo, los = v, kind == ">"
        elif kind in ("<", "<=") and (hi is None or v < hi or v == hi and kind == "<"): hi, his = v, kind == "<"
        elif kind == "=": lo = hi = v; los = his = False
        elif kind == "!=": no.add(v)
    return lo, los, hi, his, no

def mono(m, name):
    if len(m) != 1 or m[0][1] != 1: return False
    t = m[0][0]
    return isinstance(t, Sym) and t.name == name or t == ("sym", name) or repr(t) == name or getattr(t, "name", None) == name

def holds(iv, rel, b, whole):
    lo, los, hi, his, no = iv
    b = Fraction(b)
    if rel in (">=", ">"):
        if lo is None: return False
        if rel == ">=": return lo >= b or whole and los and lo >= b - 1 or whole and lo > b - 1
        return lo > b or lo == b and los
    if hi is None: return False
    return hi < b or hi == b and (his if rel == "<" else True)

def outside(iv, rel, b, whole):
    """values outside the bound, those the tests seem to let through first"""
    one = [b - 1, b - 2, b - 10] if rel == ">=" else [b, b - 1, b - 7] if rel == ">" else [b, b + 1, b + 7] if rel == "<" else [b + 1, b + 5]
    if not whole: one = [float(x) for x in one] + [b - 0.5 if rel[0] == ">" else b + 0.5]
    return one

class _Series:
    def __init__(self, name="", values=(), dtype=None): self.v = list(values)
    def null_count(self): return sum(x is None for x in self.v)
    def __len__(self): return len(self.v)
class _Pl:
    Series, Float64, Float32, Int64 = _Series, "f64", "f32", "i64"
LIBRARY = {"math": math, "pl": _Pl, "inf": math.inf, "nan": math.nan, "len": len, "abs": abs, "float": float, "int": int, "isinstance": isinstance, "str": str, "list": list, "min": min, "max": max, "any": any, "all": all, "sum": sum, "__builtins__": {}}

def folded(t):
    """the answer of a test over constants alone (number predicates and lengths); None when it is not one of those"""
    if S.deps(t): return None
    try: return bool(eval(S.show(t), dict(LIBRARY)))
    except NameError: return "?" if calls(t) else None
    except Exception: return "?"

def calls(t):
    if isinstance(t, (tuple, list)): return any(calls(x) for x in t)
    return isinstance(t, S.Op) and (t.op == "call" or any(calls(x) for x in t.args))

def consts(t):
    if isinstance(t, Const): return [t.v]
    if isinstance(t, (tuple, list)): return [x for y in t for x in consts(y)]
    if isinstance(t, S.LList): return [x for y in t.e for x in consts(y)]
    return [x for y in t.args for x in consts(y)] if isinstance(t, S.Op) else []

def feasible(p, params):
    """is this path certainly taken by some input: what it still tests is about single other parameters, or not about the constants at all"""
    bad = [repr(v) for x in params.values() for v in consts(x)]
    box = {}
    for t, b in p.conds:
        D = S.deps(t)
        if not D: continue
        if isinstance(t, S.Op) and t.op in ("lt", "le", "<", "<=", "cmp") or re.match(r"^\(\S+ (<|<=) \S+\)$", S.show(t)):
            m = re.match(r"^\((\S+) (<|<=) (\S+)\)$", S.show(t))
            if m:
                x, o, y = m.groups()
                lo, hi = box.setdefault(x, [-math.inf, math.inf]), box.setdefault(y, [-math.inf, math.inf])
                try:
                    v = float(y)
                    if b: lo[1] = min(lo[1], v - (1e-9 if o == "<" else 0))
                    else: lo[0] = max(lo[0], v + (1e-9 if o == "<=" else 0))
                    continue
                except ValueError: pass
                try:
                    v = float(x)
                    if b: hi[0] = max(hi[0], v + (1e-9 if o == "<" else 0))
                    else: hi[1] = min(hi[1], v - (1e-9 if o == "<=" else 0))
                    continue
                except ValueError: pass
                continue
        if isinstance(t, S.Sym) or re.match(r"^\(?\w+ (==|in) ", S.show(t)): continue
        if any(repr(v) in bad for v in consts(t)): return False
    return all(lo <= hi for lo, hi in box.values())

def execute(I, clo, params):
    """paths that build an expression with these constants; None when they are not all known"""
    ps = I.run(clo, params=params)
    if I.truncated or any(p.outcome == "unknown" for p in ps): return None, ps
    out, open_ = [], False
    for p in ps:
        if p.outcome != "return": continue
        r = [(folded(t), b) for t, b in p.conds]
        if any(x in (True, False) and x is not b for x, b in r): continue
        if any(x == "?" for x, _ in r) or not feasible(p, params): open_ = True; continue
        out.append(p)
    return (None if open_ and not out else out), ps

def run(ctx, rep):
    pkg = ctx.pkg
    I = S.Interp(pkg, max_paths=600)
    C = refs.Compare(pkg)
    for mod, fn, par, rel, b, whole, other in BOUNDS:
        key = "%s:%s %s %s" % (fn, par, rel, b)
        clo = refs.find(pkg, mod, fn)
        if clo is None: rep.fail(key + ":missing", "%s.%s does not exist any more" % (mod, fn)); continue
        if par not in params_of(clo): rep.undecide(key, "has no such parameter"); continue
        rep.count("bounds")
        bad = None
        for v in outside(None, rel, b, whole):
            back, ps = execute(I, clo, dict(other, **{par: Const(v)}))
            if back is None: rep.undecide(key, "paths not enumerated completely"); bad = "?"; break
            rep.count("paths", len(ps))
            if back:
                bad = "%s builds an expression with %s = %s%s; the native routine needs %s %s %s" % (fn, par, v, conds(back[0]), par, rel, b); break
        if bad == "?": continue
        if bad: rep.check(key, False, bad); continue
        rep.check(key, True, "")
        back, ps = execute(I, clo, dict(other))
        if back is None: rep.undecide(key + ":every value", "paths not enumerated completely"); continue
        rep.count("paths", len(ps))
        loose = [p for p in back if not holds(within(p, C, par, rel, b), rel, b, whole) and not typed(p, par)]
        if loose:
            # a value the tests of such a path allow
            p = loose[0]
            iv = within(p, C, par, rel, b)
            w = witness(iv, rel, b, whole)
            back = execute(I, clo, dict(other, **{par: Const(w)}))[0] if w is not None else []
            if back: rep.check(key + ":every value", False, "%s builds an expression with %s = %s%s; the native routine needs %s %s %s" % (fn, par, w, conds(back[0]), par, rel, b))
            else: rep.undecide(key + ":every value", "a path whose tests on %s are not understood%s" % (par, conds(p)))
        else: rep.check(key + ":every value", True, "")
    for mod, fn, params, what in CASES:
        key = "%s:%s" % (fn, what)
        clo = refs.find(pkg, mod, fn)
        if clo is None: rep.fail(key + ":missing", "%s.%s does not exist any more" % (mod, fn)); continue
        if set(params) - params_of(clo): rep.undecide(key, "has no such parameter"); continue
        rep.count("cases")
        back, ps = execute(I, clo, dict(params))
        if back is None: rep.undecide(key, "paths not enumerated completely"); continue
        rep.count("paths", len(ps))
        rep.check(key, not back, None if not back else "%s builds an expression for %s%s" % (fn, what, conds(back[0])))
    rep.floor("bounds", 28); rep.floor("cases", 40)
    # the native side
    G = pair(ctx)
    for c, f in sorted(G.p.b.items()):
        if f.kind != "fn" or "promoted[" in c: continue
        if any(x.body.canon == c for x in G.p.ref.plugins.values()):
            rep.count("native_routines"); refusals(G, c, rep)
    rep.floor("native_routines", 100)

def params_of(clo):
    a = clo.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set())

def conds(p):
    s = " and ".join(("" if b is True else "not ") + S.show(t)[:80] for t, b in p.conds[-4:])
    return " (%s)" % s if s else ""

def typed(p, par):
    """the path is one where the parameter is no number at all"""
    for t, b in p.conds:
        s = S.show(t)
        if b and (s.startswith("isinstance(%s, " % par) and not any(x in s for x in ("int", "float")) or s == "(%s == None)" % par): return True
    d = p.dom.get(Sym(par)) or p.dom.get(par)
    return d is not None and all(x is None for x in d)

def witness(iv, rel, b, whole):
    lo, los, hi, his, no = iv
    tries = outside(None, rel, b, whole) + [b - 3, b - 100, b + 3, b + 100]
    if lo is not None: tries += [lo, lo + 1] if whole else [float(lo), float(lo) + 0.01]
    if hi is not None: tries += [hi, hi - 1] if whole else [float(hi), float(hi) - 0.01]
    for v in tries:
        v = int(v) if whole else float(v)
        x = Fraction(v)
        if lo is not None and (x < lo or x == lo and los) or hi is not None and (x > hi or x == hi and his) or x in no: continue
        if rel == ">=" and x >= b or rel == ">" and x > b or rel == "<" and x < b or rel == "<=" and x <= b: continue
        return v
    return None
