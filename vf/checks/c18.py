"""C18: models refuse to answer before they are fitted, and check shapes before computing."""
RULE = ("every routine of the native models (the LinearRegression trait and its implementations, the online model) and every method of the native Python classes that returns a Result is interpreted on every path over its arguments; "
        "each path is reduced to whether it answers, refuses (Err) or panics, and the conditions under which it refuses must be those of the routine of the same name in spec/ref/native; "
        "what decides the state (constructors, is_fit, dim, the stored coefficients) must equal its reference in full; "
        "the methods of the Python model classes are interpreted likewise: each returning path is reduced to what it asks of the native object, and refusals and cases must be those of the reference class in spec/ref")
TECHNIQUE = "path-sensitive abstract interpretation of MIR and of Python methods; refusal conditions (decision diagrams over the tests) compared with a reference"
TRUST = ["the reference routines in spec/ref refuse exactly when they should", "library functions are pure in their arguments unless they take them mutably", "an element-wise loop over the rows neither refuses nor panics"]
import os, re, sys, itertools
from .. import frames, refs
from .. import pysym as S
from ..equiv import pair, check_once, sig
from ..diff import Diff, compare, told, atom, _val, islen, lenkey
from ..nf import TooBig
from ..msym import mk, T, walk

STATE = re.compile(r"(^linalg::LinearRegression::(is_fit|check_is_fit|has_bias)$|^linalg::lr(_online)?_solvers::(LR|ElasticNet|OnlineLR)::(new|from_values|is_fit|has_bias)$|^<linalg::lr(_online)?_solvers::\w+<.*> as linalg::LinearRegression<.*>>::(coefficients|has_bias|is_fit)$|^pymodels::\w+::Py\w+::(new|is_fit|dim|has_bias)$)")
ANSWERS = re.compile(r"^(linalg::LinearRegression::\w+|linalg::lr(_online)?_solvers::(LR|ElasticNet|OnlineLR)::\w+|<linalg::lr(_online)?_solvers::\w+<.*> as linalg::LinearRegression<.*>>::\w+|pymodels::\w+::Py\w+::\w+)$")

OK, ERR, PANIC = mk("ctor", "answers"), mk("ctor", "refuses"), mk("ctor", "panics")
def kind(v):
    if v.k == "panic": return PANIC
    if v.k == "tuple" and v.a and isinstance(v.a[0], T) and any(isinstance(x, T) and x.k == "post" for x in v.a[1:]): v = v.a[0]
    s = show(v)
    return {"Ok": OK, "Err": ERR}.get(s)

def show(v):
    from ..msym import show as sh
    m = re.match(r"(Ok|Err)\(", sh(v, 2))
    return m.group(1) if m else None

def refusals(G, c, rep):
    p = G.p
    if c not in p.a: rep.undecide(c, "not in the tree under that name"); return
    if G.same(c): rep.count("same_code"); rep.check(c, True, ""); return
    if "Result<" in p.b[c].ret and "Result<" not in p.a[c].ret: rep.fail(c + ":refusal", "%s can no longer refuse: it returns %s" % (c, p.a[c].ret)); return
    if len(p.a[c].args) != len(p.b[c].args): rep.undecide(c, "takes other arguments than the reference"); return
    rep.count("compared")
    for kw in ({}, dict(opaque=set(p.opaque) | {x for x in p.shared if "{closure" not in x} - {c} | {x.split("::")[-1] for x in p.shared if "{closure" not in x} - {c.split("::")[-1]})):
        try: a, b, q, r = p.paths(c, **kw); break
        except (TooBig, RecursionError): pass
    else: rep.undecide(c, "too many paths"); return
    recs = dict(q.recs); recs.update(r.recs)
    def reduce(ps):
        out = []
        for d, v, w in ps:
            k = kind(v)
            out.append((d, v if k is None else k, w))
        return out
    a, b = reduce(a), reduce(b)
    if any(v not in (OK, ERR, PANIC) for _, v, _ in a + b): rep.count("passed_on")
    verdict, hs = compare(a, b, recs, q)
    rep.count("outcomes", len(a))
    w = decide(a, b, q, recs) if verdict != "same" else None
    if w: rep.check(c, False, "%s %s when %s; its reference %s when %s" % (c, w[0][1].a[0], text(w[0][0]), w[1][1].a[0], text(w[1][0]))); return
    if verdict == "same": rep.check(c, True, "")
    elif verdict == "differs": rep.check(c, False, "%s refuses under other conditions than its reference: %s (reference vs tree)" % (c, told(hs)))
    else: rep.undecide(c, "no certain verdict: %s" % told(hs, 2))

def numeric(k): return k.k == "ge" or k.k == "bin" and k.a[0] in ("Lt", "Eq") and all(x.k not in ("str", "bool", "char", "tuple") for x in k.a[1:])

names = {}
def vocabulary(paths, d):
    """what the tests are about: numbers they compare, and the other tests"""
    out = set()
    for c, _ in paths:
        for k, _ in c:
            if k.k == "loop": continue
            if numeric(k):
                for x in (k.a[0:2] if k.k == "ge" else k.a[1:]):
                    out |= {d.ev(at) for m in d.q.topoly(x) for at, e in m}
            elif k.k == "bin" and k.a[0] == "Eq": out |= {d.ev(x) for x in k.a[1:]}
            elif k.k == "class": out.add(("class", d.ev(k.a[1])))
            else: out.add(d.ev(k))
    if os.environ.get("VF_DEBUG"):
        from ..msym import show as sh
        for c, _ in paths:
            for k, _ in c:
                for x in walk(k): names[d.ev(x)] = sh(x, 5)[:150]
    return out

def possible(d, conds):
    """values for the compared numbers (non-negative whole ones) under which all tests come out as given"""
    num, seen, lit, cls = [], {}, {}, {}
    for k, v in conds:
        if k.k == "loop": continue
        if numeric(k): num.append((k, v)); continue
        if k.k == "class":
            e = d.ev(k.a[1]); w = CLASSES[k.a[0]]
            cls[e] = cls.get(e, {"finite", "nan", "inf"}) & (w if v else {"finite", "nan", "inf"} - w)
            if not cls[e]: return False
            continue
        if seen.setdefault(d.ev(k), v) != v: return False
        if k.k == "bin" and k.a[0] == "Eq" and v is True:
            x, y = k.a[1:] if k.a[2].k in ("str", "char", "int", "tuple") else (k.a[2], k.a[1])
            if lit.setdefault(d.ev(x), y) is not y: return False
    ats, consts = {}, {0, 1, 2, 3}
    for k, v in num:
        for x in (k.a[0:2] if k.k == "ge" else k.a[1:]):
            for m, c in d.q.topoly(x).items():
                if not m: consts |= {abs(int(c)) + o for o in (-1, 0, 1)}
                for at, e in m: ats[d.ev(at)] = at
    if any(x.k in ("rec", "self") for x in ats.values()): return None
    if len(ats) > 5: return None
    for vs in itertools.product(sorted(c for c in consts if c >= 0), repeat=len(ats)):
        env = dict(zip(ats, vs))
        for k, v in num:
            a, b = (_val(d, x, env) for x in (k.a[0:2] if k.k == "ge" else k.a[1:]))
            if a is None or b is None: break          # no such numbers (division by zero)
            if (a >= b if k.k == "ge" else a < b if k.a[0] == "Lt" else a == b) is not v: break
        else: return True
    return False

CLASSES = {"is_finite": {"finite"}, "is_nan": {"nan"}, "is_infinite": {"inf"}}
BUILDS = {"from_columns", "from_series", "from_vec"}
def tests(c):
    """the tests of a path, those on loop state and on whether a result could be put together left out, lengths by one name"""
    def size(x): return lenkey(x) if islen(x) else x
    for k, x in c.items():
        k, x = atom(k, x)
        if any(y.k in ("rec", "self") for y in walk(k)): k = mk("loop", k)
        elif k.k == "has" and k.a[0].k == "call" and k.a[0].a[0].split("::")[-1] in BUILDS and x is True: continue
        elif k.k == "call" and k.a[0].split("::")[-1] in CLASSES and len(k.a) == 3: k = mk("class", k.a[0].split("::")[-1], k.a[2])
        elif k.k == "bin" and k.a[0] in ("Lt", "Eq"): k = mk("bin", k.a[0], size(k.a[1]), size(k.a[2]))
        elif k.k == "ge": k = mk("ge", size(k.a[0]), size(k.a[1]))
        yield k, x

def decide(a, b, q, recs):
    """a pair of paths that some input takes in both programs, one answering and the other refusing; tests in the same terms"""
    A = {(frozenset(tests(c)), v) for c, v, _ in a if c is not None}
    B = {(frozenset(tests(c)), v) for c, v, _ in b if c is not None}
    d = Diff(q, recs)
    try: va, vb = vocabulary(A, d), vocabulary(B, d)
    except TooBig: return None
    if not (va <= vb or vb <= va):
        if os.environ.get("VF_DEBUG"): print("vocab", [names.get(x, "?") for x in list(va ^ vb)[:6]], file=sys.stderr)
        return None
    for c, v in sorted(A, key=lambda z: len(z[0])):
        for e, w in sorted(B, key=lambda z: len(z[0])):
            if v is w or v not in (OK, ERR, PANIC) or w not in (OK, ERR, PANIC): continue
            # a refusal that depends on what a loop found is not compared
            if any(k.k == "loop" for k, _ in (c if v is not OK else e)): continue
            r = possible(d, c | e)
            if r is None and os.environ.get("VF_DEBUG"): print("open", text(c | e)[:600], file=sys.stderr)
            if r: return (c, v), (e, w)
    return None

def text(c):
    from ..msym import show as sh
    return " and ".join(("" if v is True else "not " if v is False else "%s for " % v) + sh(k, 5)[:120] for k, v in sorted(c, key=lambda z: str(z[1]))) or "always"

def asks(P):
    """a Python method's path, reduced to what it asks of the native object"""
    refs.observe(P)
    if P.outcome != "return" or getattr(P, "asked", False): return P
    names, seen = set(), set()
    def go(t):
        if not isinstance(t, S.Op) or id(t) in seen: return
        seen.add(id(t))
        if t.op == "attr" and isinstance(t.args[0], S.Sym) and t.args[0].name.startswith("self._"): names.add("%s.%s" % (t.args[0].name, t.args[1]))
        for x in t.args:
            if isinstance(x, S.Op): go(x)
            elif isinstance(x, (tuple, list)):
                for y in x: go(y)
    go(P.value)
    for c in P.calls: go(c)
    P.value = S.Const(" ".join(sorted(n for n in names if n.split(".")[-1] not in refs.READS))); P.asked = True
    return P

def run(ctx, rep):
    G = pair(ctx); p = G.p
    n = m = 0
    for c, f in sorted(p.b.items()):
        if f.kind != "fn" or "{closure" in c or "promoted[" in c or "__py" in c: continue
        if STATE.search(c): check_once(G, c, rep, "is set up or reports its state otherwise than its reference:"); m += 1
        elif ANSWERS.search(c) and "Result<" in f.ret: refusals(G, c, rep); n += 1
    rep.count("refusing_routines", n); rep.count("state_routines", m)
    rep.floor("refusing_routines", 20); rep.floor("state_routines", 10)
    for name, where in (("spatial", "polars_ds.spatial"), ("linear_models", "polars_ds.linear_models")):
        refs.run_classes(ctx, rep, name, where, refs.Compare(ctx.pkg, model=frames.Model(("df", "data"))), see=asks)
    rep.floor("methods", 34)
