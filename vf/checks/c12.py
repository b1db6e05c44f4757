"""C12: a routine's 32-bit version denotes the same value as its 64-bit version once float widths are erased."""
RULE = ("every function of the library whose name or module carries the suffix _f32 is paired with the function of the same name without it; both are brought to normal form on the "
        "same arguments with float widths erased (f32 = f64, Float32 = Float64, a float-to-float cast is the identity, X_f32 = X; paired helpers are compared on their own and left opaque); "
        "the two must have the same outcomes (result, error) under the same conditions, and the 32-bit version must name no 64-bit column type")
TECHNIQUE = "path-sensitive abstract interpretation of MIR to normal forms; equality of normal forms modulo float width"
TRUST = ["library functions of the same name do the same at both widths"]
import re
from ..plugs import Plugs, OPAQUE, judge, holestr
from ..msym import mk, show
from ..nf import TooBig, e32

def base(f): return "::".join(e32(s) for s in f.canon.split("::"))

def pairs(prog):
    fs = {}
    for f in prog.fns.values():
        if f.kind != "fn" or "{closure" in f.canon or "_polars_plugin" in f.canon.split("::")[-1] or f.canon.startswith("<"): continue
        fs.setdefault(base(f), []).append(f)
    out, alone = [], []
    for b, l in fs.items():
        wide = [f for f in l if f.canon == b]
        for f in l:
            if f.canon == b: continue
            if len(wide) == 1: out.append((wide[0], f))
            else: alone.append(f)
    return out, alone

def run(ctx, rep):
    P = Plugs(ctx.native, erase32=True, max_paths=6000)
    two, alone = pairs(P.n.prog)
    op = set(OPAQUE) | {g for a, b in two for f in (a, b) for g in (f.canon, f.canon.split("::")[-1])}
    for f in alone: rep.undecide(f.canon, "no 64-bit function of that name")
    for a, b in sorted(two, key=lambda p: p[0].canon):
        name = b.canon.split("::")[-1]
        if [t for _, t in a.args] and len(a.args) != len(b.args):
            rep.check(name + ": arguments", False, "%s takes %d arguments, %s takes %d" % (a.canon, len(a.args), b.canon, len(b.args))); continue
        q = P.nf(opaque=op)
        try:
            args = [mk("arg", "twin", i) for i, _ in a.args]
            pa, pb = q.paths(a, args), q.paths(b, args)
        except TooBig as e: rep.undecide(name, "no normal form within the budget"); continue
        rep.count("pairs"); rep.count("outcomes", len(pa) + len(pb))
        compare(q, name, pa, pb, rep)
    for a, b in two: widths(P, b, rep)
    rep.floor("pairs", 12)

WIDE = re.compile(r"\bFloat64|SeriesTrait::f64\b|Series::f64\b|::f64\(|\bto_float\b")
def widths(P, b, rep):
    """the narrow version names no 64-bit column type: a column read or built at the other width is an error or a silent change of the result's type"""
    name = b.canon.split("::")[-1]
    bad = []
    for g in P.n.w.family(b):
        for x in g.blocks.values():
            for t in [s.text for s in x.stmts] + [x.term.text]:
                t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
                if WIDE.search(t): bad.append("%s: %s" % (g.canon.split("::")[-1], t[:160]))
    rep.check(name + ": column width", not bad, "the 32-bit routine %s uses a 64-bit column: %s" % (name, "; ".join(bad[:2])))

def compare(q, name, pa, pb, rep):
    A = {(frozenset(c.items()), v) for c, v, _ in pa}
    B = {(frozenset(c.items()), v) for c, v, _ in pb}
    n = len(A & B)
    rep.obl += n; rep.ok += n
    da, db = list(A - B), list(B - A)
    if not da and not db: return
    told = set()
    def tell(x, y, what):
        verdict, hs = judge(x, y, q.recs)
        if verdict != "differs": return False
        s = holestr(hs)
        if s not in told: told.add(s); rep.check("%s: %s" % (name, what), False, "%s and its 64-bit version differ: %s" % (name, s))
        return True
    ka = {k for c, _ in da for k, _ in c}; kb = {k for c, _ in db for k, _ in c}
    done = False
    for v, w in sorted(((v, w) for c, v in da for d, w in db if c == d), key=lambda p: 0):
        if v is not w and len(told) < 4: done |= tell(v, w, "result")
    if not done:
        for k in ka - kb:
            for l in kb - ka:
                if k.k == l.k and len(told) < 4: done |= tell(k, l, "test")
    if not done and not (ka ^ kb):
        for c, v in da:
            for d, w in db:
                d2 = dict(d)
                if v is not w and len(told) < 4 and all(d2.get(k, x) == x for k, x in c): done |= tell(v, w, "result")
    if not done: rep.undecide(name, "%d outcomes of the 64-bit version and %d of the 32-bit version have no counterpart" % (len(da), len(db)))
