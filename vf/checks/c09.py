"""C09: a routine spreads its work over the pool only when asked, and never inside the engine's own parallelism."""
RULE = ("on every path of an exported routine that enters the worker pool (install, parallel iterators, join, or a function of the crate that does so), the path has established that the caller's parallel flag is true and that "
        "CallerContext::parallel() is false")
TECHNIQUE = "effect analysis over path conditions (path-sensitive abstract interpretation of MIR); closures and opaque callees by call-graph reachability"
TRUST = ["CallerContext::parallel() tells whether the engine is running the routine in parallel already", "faer's own kernels and Polars' kernels manage their parallelism themselves"]
from ..plugs import Plugs
from ..msym import T, walk, show
from ..nf import TooBig
from ..rowlen import call, last
from ..msym import mk
from ..mterm import last_of
from .c04 import BIG
from .c07 import CLOSED

POOL = {"install", "into_par_iter", "par_iter", "par_iter_mut", "par_bridge", "par_chunks", "par_chunks_exact", "par_windows", "par_split", "join", "par_sort", "par_sort_unstable", "par_sort_by", "spawn", "scope", "in_place_scope", "broadcast"}
# copies columns into a matrix as Polars' DataFrame::to_ndarray does
FREE = {"series_to_row_major_slice"}

def flag_of(k, p):
    """what a condition asks: the caller's flag, the engine's, or something else"""
    if k.k == "call" and last(k) == "parallel" and "CallerContext" in k.a[0]: return "engine"
    if p.kw_arg is not None and k.k == "fld" and k.a[0].k == "arg" and k.a[0].a[-1] == p.kw_arg:
        f = p.kwargs.by_name("parallel")
        return "flag" if f is not None and f.index == k.a[1] else None
    if k.k == "pay":
        g = call(k.a[0], "get", "first", "get_unchecked")
        b = g and g[0].k == "pay" and call(g[0].a[0], "bool")
        if b and b[0].k == "idx" and b[0].a[0].k == "arg" and (len(g) == 1 or g[1] is mk("int", 0)): return "input"
    return None

def pool(name): return name.split("::")[-1] in POOL and ("Par" in name or "ThreadPool" in name or "rayon" in name)

class Reach:
    def __init__(self, P):
        self.P, self.memo = P, {}
    def site(self, f):
        """a pool entry reached from a function of the crate, or None"""
        if f.canon in self.memo: return self.memo[f.canon]
        self.memo[f.canon] = None
        if f.canon.split("::")[-1] in FREE: return None
        r = None
        for g in [f] + [g for g in self.P.n.prog.fns.values() if g.canon.startswith(f.canon + "::{closure")]:
            for b, t in g.calls():
                if not t.callee: continue
                name = t.callee.split("<")[0] if not t.callee.startswith("<") else t.callee
                l = last_of(t.callee)
                if l in POOL and ("rayon" in t.callee or "ParallelIterator" in t.callee or "ParallelSlice" in t.callee or "ParallelBridge" in t.callee or "ThreadPool" in t.callee): r = (g.canon, l)
                else:
                    for h in self.P.n.prog.resolve(t.callee):
                        if h.canon != g.canon: r = r or self.site(h)
                if r: break
            if r: break
        self.memo[f.canon] = r
        return r

def terms(x):
    seen = set()
    for t in ([x.value] if isinstance(x.value, T) else []) + [c for c, _ in x.conds] + [e for e in x.events if isinstance(e, T)] + [i for l in x.loops for _, i in l.a[1]] + [y for y in (x.trans or {}).values() if isinstance(y, T)]:
        for y in walk(t):
            if y not in seen: seen.add(y); yield y

def refuses(z, x, p):
    """an argument that hands on `asked and not already parallel`"""
    return z.k == "not" and flag_of(z.a[0], p) == "engine" and any(flag_of(c, p) in ("flag", "input") and b is True for c, b in x.conds)

def run(ctx, rep):
    P = Plugs(ctx.native, max_paths=4000)
    reach = Reach(P)
    for sym, p in sorted(P.n.plugins.items()):
        site = reach.site(p.body)
        rep.count("routines")
        if site is None:
            rep.check((sym, "none"), True, ""); continue
        rep.count("routines_with_pool")
        q = P.nf(max_paths=20000, opaque=set(P.opaque) | CLOSED) if sym in BIG else P.nf()
        try: ps = q.run_fn(p.body)
        except TooBig: rep.undecide(sym, "not read within the budget"); continue
        res = {}
        for x in ps:
            if x.outcome in ("dead",): continue
            at = set()
            for y in terms(x):
                if y.k in ("call", "mut") and pool(y.a[0]): at.add(y.a[0].split("::")[-1])
                elif y.k == "closure":
                    f = P.n.prog.by_closure.get(y.a[0])
                    s = f is not None and reach.site(f)
                    if s: at.add("closure %s: %s" % (s[0].split("::")[-1], s[1]))
                elif y.k in ("call", "mut"):
                    for f in [f for f in P.n.prog.fns.values() if f.canon.endswith(y.a[0]) and f.canon.split("::")[-1] == y.a[0].split("::")[-1]]:
                        s = reach.site(f)
                        if s and not any(z.k == "bool" and z.a[0] is False or refuses(z, x, p) for z in y.a[2:] if isinstance(z, T)): at.add("%s: %s" % (f.canon.split("::")[-1], s[1]))
            if not at: continue
            rep.count("paths_into_the_pool")
            fl = [(flag_of(c, p), b) for c, b in x.conds]
            asked = ("flag", True) in fl or ("input", True) in fl
            free = ("engine", False) in fl
            for a in at:
                why = None if asked and free else "without the caller having asked for it" if not asked else "without asking whether the engine is already parallel" if ("engine", True) not in fl else "although the engine is already parallel"
                k = (sym, a)
                if k not in res or why: res[k] = why
        for k, why in res.items(): rep.check(k, why is None, "%s enters the worker pool (%s) %s" % (k[0], k[1], why))
        if not res: rep.undecide(sym, "its pool entry in %s was not seen on a path" % site[0])
    rep.floor("routines", 90); rep.floor("routines_with_pool", 20); rep.floor("paths_into_the_pool", 30)
