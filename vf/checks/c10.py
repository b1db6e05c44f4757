"""C10: randomness comes only from the seed the caller passed."""
RULE = ("native: on every path of every exported routine, each random draw takes its generator from a seeding call whose argument is the first value of the column the Python layer passes the seed in, entropy is drawn only where that value is absent, "
        "one generator serves all rows of a call, a drawing routine never enters the worker pool, and no routine reaches the clock, the thread identity or the order of a hashed collection; Python: on every path of every function, each random operation "
        "takes the function's own seed (entropy only when there is no seed), every function with a seed uses it, and no result takes the order of a set")
TECHNIQUE = "normal forms of MIR (generator provenance per path) and call-graph effects; symbolic evaluation of the Python layer (seed provenance)"
TRUST = ["rand's seed_from_u64 and Polars' shuffle/rank(seed) are functions of the seed", "names of entropy, clock and thread sources are listed in vf/checks/c10.py"]
import ast
from ..plugs import Plugs
from ..msym import T, walk, show, kids
from ..nf import TooBig
from ..mterm import last_of

from ..dtypes import tstr
from .. import builders as B, pysym as S
from .c04 import BIG
from .c07 import CLOSED
from .c09 import Reach

def last(t): return t.a[0].split("::")[-1].rstrip("!") if t.k in ("call", "mut") else ""

DRAW = {"sample", "sample_iter", "sample_string", "append_string", "gen", "gen_range", "gen_bool", "gen_ratio", "random", "random_range", "random_bool", "random_iter", "fill", "fill_bytes", "try_fill", "next_u32", "next_u64", "shuffle", "partial_shuffle",
        "choose", "choose_multiple", "choose_weighted", "choose_mut", "sample_single"}
SEED = {"seed_from_u64", "from_seed", "from_rng"}
ENTROPY = {"from_entropy", "from_os_rng", "thread_rng", "rng", "getrandom", "from_thread_rng"}
CLOCK = (("SystemTime", "now"), ("Instant", "now"), ("thread", "current"), ("process", "id"), ("", "current_thread_index"), ("", "rdtsc"), ("time", "now"), ("", "available_parallelism"))
HASHED = ("HashMap", "HashSet", "hash_map", "hash_set", "hash_table", "HashTable", "RawTable")
ORDERED = {"iter", "into_iter", "iter_mut", "drain", "keys", "values", "values_mut", "into_keys", "into_values", "retain", "extract_if"}
# what a set operation's elements may go into without their order showing
UNORDERED = {"count", "sum", "len", "all", "any", "min", "max", "is_empty", "fold_unordered", "contains"}

def isdraw(t): return t.k in ("call", "mut") and last(t) in DRAW and ("Rng" in t.a[0] or "Distribution" in t.a[0] or "DistString" in t.a[0] or "rand" in t.a[0] or "SliceRandom" in t.a[0] or "Seq" in t.a[0])
def isentropy(t):
    if t.k not in ("call", "mut"): return False
    l = last(t)
    if l == "rng" or l == "random": return t.a[0].startswith("rand") or "::rand::" in t.a[0]
    return l in ENTROPY or "OsRng" in t.a[0]

def leaves(t): return {x for x in walk(t) if x.k == "arg" or x.k == "idx" and x.a[0].k == "arg"}

def seedpos(t):
    """the input index i when t is built from the first value of inputs[i] and nothing else"""
    cols = {x for x in walk(t) if x.k == "idx" and x.a[0].k == "arg"}
    if len(cols) != 1: return None
    c = next(iter(cols))
    if not all(len(x.a) > 3 and x.a[3].k == "int" and x.a[3].a[0] == 0 for x in walk(t) if x.k == "call" and last(x) in ("get", "get_unchecked", "value", "nth")): return None
    if {x for x in walk(t) if x.k == "arg"} != {c.a[0]}: return None
    return c.a[1].a[0] if c.a[1].k == "int" else c.a[1]

def absent(conds):
    """input indices whose first value is known to be missing / known to be there"""
    no, yes = set(), set()
    for c, b in conds:
        if c.k == "has" and c.a[0].k == "call" and last(c.a[0]) in ("get", "first"):
            i = seedpos(c.a[0])
            if i is not None: (yes if b else no).add(i)
    return no, yes

def under_lams(v):
    """draws inside row functions: (lam, draw)"""
    out, seen = [], set()
    def go(t, lam):
        if (t, lam) in seen: return
        seen.add((t, lam))
        if lam is not None and isdraw(t) and t.k == "call": out.append((lam, t))
        for x in kids(t): go(x, t if t.k == "lam" else lam)
    go(v, None)
    return out

def roots(t):
    """the generators a draw works on: seeding or entropy calls and row state inside it"""
    return [x for x in walk(t) if x.k == "call" and last(x) in SEED or isentropy(x)]

def native(ctx, rep):
    P = Plugs(ctx.native, max_paths=4000)
    prog, w = P.n.prog, P.n.w
    reach = Reach(P)
    seeds = {}          # symbol -> positions seeded from
    for sym, p in sorted(P.n.plugins.items()):
        rep.count("routines")
        draws = False
        for f in w.reach(p.body) if hasattr(w, "reach") else []:
            for b, t in f.calls():
                c = t.callee or ""
                l = last_of(c)
                for m, n in CLOCK:
                    if l == n and m in c: rep.fail((sym, f.canon, l), "%s reads %s in %s" % (sym, c[:60], f.canon))
                if l in ENTROPY | SEED or l in DRAW and ("rand" in c or "Rng" in c): draws = draws or "rand" in c or "Rng" in c
                if l in ORDERED and any(h in c for h in HASHED):
                    rep.fail((sym, f.canon, "hash order"), "%s goes through a hashed collection in its own order (%s in %s)" % (sym, l, f.canon))
        rep.check((sym, "sources"), True, "")
        if not draws: continue
        rep.count("drawing_routines")
        s = reach.site(p.body)
        rep.check((sym, "pool"), s is None, "%s draws random numbers and enters the worker pool in %s, so that the draws depend on the schedule" % (sym, s and s[0]))
        q = P.nf(max_paths=20000, opaque=set(P.opaque) | CLOSED) if sym in BIG else P.nf()
        try: ps = q.paths(p.body)
        except TooBig: rep.undecide(sym, "not read within the budget"); continue
        for conds, v, x in ps:
            if x.outcome != "return": continue
            ok = not (v.k == "var" and v.a[0] == "Err")
            rep.count("paths")
            items = list(conds.items()) if isinstance(conds, dict) else list(conds)
            no, yes = absent(items)
            allt = set()
            for t in [v] + [c for c, _ in items]: allt |= set(walk(t))
            for t in x.events:
                if isinstance(t, T): allt |= set(walk(q.canon(t)))
            ent = [t for t in allt if isentropy(t)]
            sd = [t for t in allt if t.k == "call" and last(t) in SEED]
            why = None
            for t in sd:
                i = seedpos(t)
                if i is None: why = "seeds a generator with %s, which is not the caller's seed" % show(t, 4)[:80]
                else: seeds.setdefault(sym, set()).add(i)
                rep.count("seedings")
            if ent and not no: why = "draws fresh entropy without knowing that no seed was given"
            for t in allt:
                if isdraw(t):
                    rep.count("draws")
                    if not roots(t) and not any(y.k in ("bv", "lv") for y in walk(t)): why = "draws from %s, whose generator does not come from the seed" % show(t, 3)[:80]
            for lam, t in under_lams(v):
                # the row function must hand on the state of the generator it draws from
                posts = [y for y in walk(lam) if y.k == "post" and any(z.k in ("mut",) and isdraw(z) for z in walk(y))]
                if roots(t) and not posts: why = "starts the generator again for every row, so that every row gets the same draw"
            rep.check((sym, "path", tuple(sorted((show(c, 3)[:60], str(b)) for c, b in items))), why is None, "%s %s" % (sym, why))
    return seeds

# ------------------------------------------------------------------ Python

PYENT = ("random.", "numpy.random", "secrets.", "uuid.", "time.", "os.urandom", "os.getpid", "threading.", "datetime.datetime.now", "datetime.datetime.today", "datetime.date.today", "datetime.now")
PYGLOBAL = {"random", "randint", "randrange", "choice", "choices", "sample", "shuffle", "uniform", "gauss", "normalvariate", "betavariate", "expovariate", "getrandbits", "seed"}

def callee(t):
    """(path of an outside function or None, method name or None, receiver)"""
    f = t.args[0]
    if isinstance(f, S.Op) and f.op == "ext": return f.args[0], f.args[0].split(".")[-1], None
    if isinstance(f, S.Op) and f.op == "attr":
        p, x = [f.args[1]], f.args[0]
        while isinstance(x, S.Op) and x.op == "attr": p.append(x.args[1]); x = x.args[0]
        if isinstance(x, S.Op) and x.op == "ext": return ".".join([x.args[0]] + p[::-1]), f.args[1], None
        return None, f.args[1], f.args[0]
    return None, None, None

def argument(t, pos, name):
    for k, v in t.args[2]:
        if k == name: return v
    return t.args[1][pos] if len(t.args[1]) > pos else None

def is_none(t): return t is None or isinstance(t, S.Const) and t.v is None

def operation(t):
    """None, ('seed', term or None) for a random operation, ('entropy', what)"""
    path, m, recv = callee(t)
    if path:
        if path in ("random.Random", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.seed", "random.seed"): return "seed", argument(t, 0, "seed" if "numpy" in path else "x"), path
        if path == "time.perf_counter" or path.startswith("polars."): pass
        elif any(path == e or path.startswith(e) for e in PYENT): return "seed", None, path
    if m == "shuffle" and recv is not None: return "seed", argument(t, 0, "seed"), "shuffle"
    if m == "rank" and recv is not None:
        me = argument(t, 0, "method")
        if isinstance(me, S.Const) and me.v == "random" or me is not None and not isinstance(me, S.Const): return "seed", argument(t, 2, "seed"), "rank"
    if m == "sample" and recv is not None and not any(isinstance(x, S.Op) and x.op == "ext" and str(x.args[0]).startswith("random.Random") for x in S.walk(recv)): return "seed", argument(t, 4, "seed"), "sample"
    return None

def python(ctx, rep, seeds):
    B.uses(ctx)
    for q, (clo, ps, tr, err) in sorted(B.run_all(ctx).items()):
        a = clo.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        seeded = next((n for n in names if n in ("seed", "random_state", "random_seed", "rng_seed")), None)
        rep.count("functions")
        if err: continue
        used = False
        short = B.short(q)
        for p in ps:
            if p.outcome not in ("return", "raise"): continue
            nos = any(str(S.show(c)) in ("(%s is None)" % seeded, "(%s == None)" % seeded) and b for c, b in p.conds) if seeded else True
            terms = set()
            for t in [p.value] + list(p.calls):
                for y in S.walk(t):
                    if isinstance(y, S.Op) and y.op == "call": terms.add(y)
            ops = []
            for t in terms:
                o = operation(t)
                if o: ops.append((o[1], o[2], t))
            for n in S.natives(p):
                s = n.symbol
                if isinstance(s, S.Const) and s.v in seeds:
                    for i in seeds[s.v]:
                        ar = n.args[i] if i < len(n.args) else None
                        v = argument(ar, 0, "value") if isinstance(ar, S.Op) and ar.op == "call" and callee(ar)[0] == "polars.lit" else ar
                        ops.append((v, s.v, ar))
            for v, what, t in ops:
                rep.count("random_operations")
                d = {x.name for x in S.walk(v) if isinstance(x, S.Sym)} if v is not None else set()
                if seeded:
                    if d == {seeded}: used = True; why = None
                    elif is_none(v) and nos: why = None
                    elif is_none(v): why = "draws without the seed it was given"
                    else: why = "seeds with %s instead of the seed it was given" % S.show(v)[:60]
                else:
                    # a function that offers no seed: fresh entropy (its keyword arguments may carry one)
                    why = None
                rep.check((short, what), why is None, "%s: %s %s" % (short, what, why))
        if seeded and not tr and ps: rep.check((short, "uses its seed"), used, "%s takes a seed and no random operation of it uses it" % short)
        if seeded: rep.count("seeded_functions")

SETOK = {"len", "sorted", "any", "all", "sum", "min", "max", "set", "frozenset", "bool"}
SETM = {"intersection", "union", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "add", "remove", "discard", "update", "copy", "intersection_update", "difference_update", "clear"}

def set_order(ctx, rep):
    """a set's own order must not reach a result"""
    for mn, m in sorted(ctx.pkg.mods.items()):
        if any(x in mn for x in B.SKIP_MODULES): continue
        tree = m.tree if hasattr(m, "tree") else ast.parse(open(m.path).read())
        fns = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
        for fn in fns:
            sets = set()
            def isset(e):
                if isinstance(e, (ast.Set, ast.SetComp)): return True
                if isinstance(e, ast.Name): return e.id in sets
                if isinstance(e, ast.Call):
                    if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"): return True
                    if isinstance(e.func, ast.Attribute) and e.func.attr in ("intersection", "union", "difference", "symmetric_difference", "copy") and isset(e.func.value): return True
                if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)): return isset(e.left) and isset(e.right) or isset(e.left) and isinstance(e.right, (ast.Set, ast.SetComp))
                if isinstance(e, ast.IfExp): return isset(e.body) or isset(e.orelse)
                return False
            for _ in range(2):
                for s in ast.walk(fn):
                    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and isset(s.value):
                        for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                            if isinstance(t, ast.Name): sets.add(t.id)
            bad = []
            par = {c: n for n in ast.walk(fn) for c in ast.iter_child_nodes(n)}
            def fine(n):
                """the ordered thing n only goes where order does not show"""
                u = par.get(n)
                if isinstance(u, ast.Call) and isinstance(u.func, ast.Name) and u.func.id in SETOK: return True
                if isinstance(u, ast.Compare): return True
                if isinstance(u, ast.Call) and isinstance(u.func, ast.Attribute) and u.func.attr in ("exclude", "update", "isin", "is_in"): return True
                if isinstance(u, ast.Assign) and len(u.targets) == 1 and isinstance(u.targets[0], ast.Attribute) and isinstance(u.targets[0].value, ast.Name) and u.targets[0].value.id == "self" and u.targets[0].attr == "exclude": return True
                return False
            for n in ast.walk(fn):
                it = None
                if isinstance(n, (ast.For, ast.comprehension)) and isset(n.iter):
                    # adding to another set, or nodes and edges to a graph
                    if isinstance(n, ast.For) and all(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("node", "edge", "add", "discard", "remove") for s in n.body): continue
                    u = par.get(n)
                    if isinstance(n, ast.comprehension) and (isinstance(u, (ast.SetComp,)) or isinstance(u, (ast.GeneratorExp, ast.ListComp)) and fine(u)): continue
                    it = n.iter
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "zip", "iter", "map", "next", "reversed") and any(isset(x) for x in n.args) and not fine(n): it = n
                elif isinstance(n, ast.Starred) and isset(n.value): it = n
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "pop") and (any(isset(x) for x in n.args) or n.func.attr == "pop" and isset(n.func.value)): it = n
                if it is not None: bad.append(n)
            rep.count("functions_scanned_for_sets")
            if sets or any(isset(n) for n in ast.walk(fn) if isinstance(n, ast.expr)): rep.count("functions_with_sets")
            rep.check((mn, fn.name, "set order"), not bad, "%s.%s takes the order of a set (%s), which changes from one process to the next" % (mn, fn.name, "; ".join(ast.unparse(b)[:60].split("\n")[0] for b in bad)))
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and not fn.name.startswith("__"):
                    rep.fail((mn, fn.name, n.func.id), "%s.%s uses %s(), which changes from one process to the next" % (mn, fn.name, n.func.id))

def run(ctx, rep):
    seeds = native(ctx, rep)
    python(ctx, rep, seeds)
    set_order(ctx, rep)
    rep.floor("routines", 90); rep.floor("drawing_routines", 8); rep.floor("seeded_functions", 12); rep.floor("random_operations", 25); rep.floor("draws", 15)
