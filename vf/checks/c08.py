"""C08: the branch a routine takes under its parallel flag denotes the same value as its serial branch."""
RULE = ("every routine with a parallel option is brought to normal form; in its parallel outcomes a split of N rows into consecutive (offset, length) chunks "
        "whose per-chunk results are concatenated (or summed) in order is replaced by the body on the whole input, which is sound when the split tiles [0, N), "
        "N is the number of rows of what is sliced, and the chunk bounds occur nowhere else in the body; every pair of outcomes that differ only in the flag must then be equal")
TECHNIQUE = "path-sensitive abstract interpretation of MIR to normal forms; chunked map = map rewrite; equality of normal forms"
TRUST = ["rayon's ordered parallel iterators yield the items of the serial ones in order", "floating-point sums are compared up to the order of additions",
         "the input columns of one call have equal length unless the code compares them"]
from ..plugs import Plugs, num, judge, holestr
from ..msym import T, mk, walk, kids, show
from ..nf import Poly, TooBig, _padd, size

CTX = "CallerContext::parallel"
def call(t, *names):
    """arguments of a call to one of the functions named"""
    return t.a[2:] if isinstance(t, T) and t.k == "call" and t.a[0] in names else None
def has_split(t): return any(x.k == "call" and x.a[0] == "utils::split_offsets" for x in walk(t))

class Chunks:
    """the rewrite of chunked evaluation; `bad` lists what contradicts it, `odd` what could not be read"""
    def __init__(self, q):
        self.q, self.bad, self.odd, self.done, self.other = q, [], [], 0, {}
    # -------------------------------------------------------------- shapes
    def split(self, it):
        a = call(it, "it::iter")
        a = call(a[0], "utils::split_offsets") if a else None
        return a[0] if a else None
    def match(self, t):
        """(N, lam, field) of a chunked evaluation"""
        a = call(t, "ChunkedArray::from_chunk_iter")
        if a and len(a) == 2:
            f = call(a[1], "it::flatten")
            if f:
                m = call(f[0], "it::map")
                if m and self.split(m[0]) is not None and m[1].k == "lam": return self.split(m[0]), m[1], None
                x, i = f[0], None
                g = call(x, "it::iter")
                x = g[0] if g else x
                if x.k == "fld": x, i = x.a
                if x.k == "list" and self.split(x.a[0]) is not None and x.a[1].k == "lam": return self.split(x.a[0]), x.a[1], i
        if t.k == "sum" and t.a[0] is mk("int", 0) and self.split(t.a[1]) is not None and t.a[2].k == "lam": return self.split(t.a[1]), t.a[2], "sum"
        return None
    def rewrite(self, t, top=None):
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if not has_split(t): return t
            m = self.match(t)
            if m:
                r = self.whole(t, *m)
                r = go(r) if r is not None and r is not t else t
            else:
                subs = {}
                for x in kids(t):
                    y = go(x)
                    if y is not x: subs[x] = y
                r = self.q.subst(t, subs) if subs else t
            memo[t] = r
            return r
        return go(t)
    # -------------------------------------------------------------- one evaluation
    def whole(self, t, N, lam, how):
        q, d, body = self.q, lam.a[2], lam.a[1]
        if how == "sum": pass
        else:
            if how is not None:
                if body.k != "tuple" or how >= len(body.a): self.odd.append(t); return None
                body = body.a[how]
            if body.k == "chunks": body = body.a[0]
            elif body.k in ("rows", "list"): pass
            else: self.odd.append(t); return None
        v = mk("bv", d, 0)
        P, L = mk("fld", v, 0), mk("fld", v, 1)
        counts, sub = [], {}
        def local(x): return any(y is v for y in walk(x))
        def same(a, b):
            a, b = num(q, a), num(q, b)
            return a is not None and a == b
        def find(x):
            r = None
            a = call(x, "ChunkedArray::slice", "Series::slice", "SeriesTrait::slice")
            if a and len(a) == 3 and not local(a[0]) and local(a[1]):
                o = a[1].a[-1] if a[1].k == "cast" else a[1]
                if o is P and a[2] is L: r = a[0]; counts.append(("len", r))
                else: self.bad.append("slices (%s, %s) of %s" % (show(a[1], 5), show(a[2], 5), show(a[0], 4)))
            elif x.k == "idx" and x.a[1].k == "struct" and x.a[1].a[0] == "Range" and not local(x.a[0]) and local(x.a[1]):
                lo, hi = x.a[1].a[1], x.a[1].a[2]
                w = self.width(lo, hi, P, L)
                if w is None: self.bad.append("takes %s[%s .. %s]" % (show(x.a[0], 4), show(lo, 5), show(hi, 6)))
                else: r = x.a[0]; counts.append((w, r))
            elif call(x, "it::take"):
                a = call(x, "it::take"); b = call(a[0], "it::skip")
                if b and b[1] is P and a[1] is L and not local(b[0]): r = b[0]; counts.append(("it", r))
            elif x.k == "struct" and x.a[0] == "Range" and local(x):
                if x.a[1] is P and self.width(x.a[1], x.a[2], P, L) == Poly({(): 1}): r = mk("struct", "Range", mk("int", 0), N); counts.append((None, None))
            if r is not None: sub[x] = r; return
            for y in kids(x): find(y)
        find(body)
        if not sub:
            self.odd.append(t); return None
        new = q.subst(body, sub)
        # an index counted within the chunk plus the chunk's offset is the row number
        idx = {}
        for x in walk(new):
            if x.k == "poly":
                p = num(q, x)
                if p is None: continue
                mP = ((P, 1),)
                if p.get(mP) == 1:
                    o = [m for m in p if m != mP and len(m) == 1 and m[0][1] == 1 and m[0][0].k == "fld" and m[0][0].a[0].k == "bv" and m[0][0].a[1] == 0 and p[m] == 1]
                    if o: idx[x] = q.frompoly(Poly({m: c for m, c in p.items() if m != mP}))
        if idx: new = q.subst(new, idx)
        if local(new):
            for x in walk(new):
                if x.k in ("fld", "poly") and local(x): self.bad.append("the bounds of the chunk occur in the row computation: " + show(x, 6)[:200]); break
            else: self.bad.append("the bounds of the chunk occur in the row computation")
            return None
        # N must be the number of rows of what is sliced
        n = num(q, N)
        sizes = [num(q, q.shift(q.frompoly(z), -1, d + 1)) if z is not None else None for z in (self.count(w, x) for w, x in counts)]
        if n is not None and sizes and None not in sizes and n not in sizes and self.input_len(N): self.other[t] = (N, [q.frompoly(z) for z in sizes])
        elif n is not None and sizes and None not in sizes and n not in sizes:
            atoms = lambda p: {a for m in p for a, _ in m}
            if any(atoms(n) == atoms(z) for z in sizes) or not any(x.k == "arg" for x in walk(N)): self.bad.append("splits %s rows where what it slices has %s" % (show(N, 6)[:160], show(q.frompoly(sizes[0]), 6)[:160]))
            else: self.odd.append(t)
        self.done += 1
        return q.shift(new, -1, d + 1)
    def width(self, lo, hi, P, L):
        """w with lo = P*w and hi = (P + L)*w"""
        a, b = num(self.q, lo), num(self.q, hi)
        if a is None or b is None: return None
        def factor(p, X):
            r = Poly()
            for m, c in p.items():
                d = dict(m)
                if d.pop(X, 0) != 1: return None
                if any(y is X or y is P or y is L for x in d for y in walk(x)): return None
                r[tuple(sorted(d.items(), key=lambda z: m.index((z[0], z[1]))))] = c
            return r
        w = factor(a, P)
        v = factor(_padd(b, a, -1), L)
        return w if w is not None and w == v else None
    def count(self, w, x):
        q = self.q
        if w is None: return Poly({(): 0}) and None
        if w == "it": return None
        if w == "len": return num(q, mk("call", "ChunkedArray::len", "", x))
        n = self.rows(x)
        if n is None: return None
        try: return n if w == Poly({(): 1}) else q.pdiv(n, w)
        except TooBig: return None
    def rows(self, x):
        q = self.q
        a = call(x, "it::collect")
        if a: x = a[0]
        if x.k == "list": x = x.a[0]
        a = call(x, "it::windows")
        if a: return _padd(_padd(num(q, mk("len", a[0])), num(q, a[1]), -1), Poly({(): 1}))
        a = call(x, "it::chunks_exact")
        if a: return q.pdiv(num(q, mk("len", a[0])), num(q, a[1]))
        a = call(x, "it::iter")
        if a: x = a[0]
        return num(q, mk("len", x))
    def input_len(self, N):
        """the length of an input column"""
        a = call(N, "ChunkedArray::len", "Series::len", "SeriesTrait::len")
        x = a[0] if a else N.a[0] if N.k == "len" else None
        while x is not None and x.k != "arg":
            if x.k in ("pay", "idx", "fld"): x = x.a[0]
            elif x.k == "call" and len(x.a) == 3: x = x.a[2]
            else: return False
        return x is not None

def tiles(q, fn):
    """split_offsets(len, n) is a list of consecutive pieces covering [0, len): (ok, message)"""
    n_, c_ = mk("int", 0), None
    out = []
    for conds, v, _ in q.paths(fn):
        ln, n = mk("arg", *argkey(q, fn, 1)), mk("arg", *argkey(q, fn, 2))
        if v.k == "array":
            tot = Poly()
            for x in v.a:
                if x.k != "tuple" or len(x.a) != 2: return None, show(v)
                if num(q, x.a[0]) != tot: return False, "a piece starts at %s, the previous one ends at %s" % (show(x.a[0]), show(q.frompoly(tot)))
                tot = _padd(tot, num(q, x.a[1]))
            if tot != num(q, ln): return False, "the pieces end at %s" % show(q.frompoly(tot))
            continue
        if v.k != "list" or v.a[0].k != "struct" or v.a[0].a[0] != "Range" or v.a[1].k != "lam": return None, show(v)
        if v.a[0].a[1] is not mk("int", 0) or v.a[0].a[2] is not n: return False, "pieces are numbered %s" % show(v.a[0])
        i = mk("bv", v.a[1].a[2], 0)
        c = mk("arg", "chunk", 0)
        def chunked(t):
            p, r = num(q, t), Poly()
            if p is None: return None
            for m, k in p.items():
                d = dict(m)
                if n in d:
                    if d.pop(n) != -1 or d.pop(ln, 0) != 1: return None
                    d[c] = 1
                key = tuple(sorted(d.items(), key=lambda z: id(z[0])))
                r[key] = r.get(key, 0) + k
            return r
        last = q.cmp("Eq", i, q.frompoly(_padd(num(q, n), Poly({(): -1}))))
        arms = {}
        body = v.a[1].a[1]
        for cs, x in q.items(body):
            if x.k != "tuple" or len(x.a) != 2: return None, show(x)
            if set(cs) - {last}: return None, show(body)
            for b in ([cs[last]] if last in cs else [True, False]): arms[b] = tuple(chunked(y) for y in x.a)
        if set(arms) != {True, False} or any(y is None for x in arms.values() for y in x): return None, show(body)
        ki = ((i, 1),); kc = ((c, 1),); kic = tuple(sorted([(i, 1), (c, 1)], key=lambda z: id(z[0]))); kl = ((ln, 1),)
        off = Poly({kic: 1})
        for b in arms:
            if arms[b][0] != off: return False, "piece i starts at %s, not at i * (len / n)" % show(body, 8)
        if arms[False][1] != Poly({kc: 1}): return False, "a piece other than the last has length %s" % show(body, 8)
        if arms[True][1] != Poly({kl: 1, kic: -1}): return False, "the last piece does not reach the end: %s" % show(body, 8)
    return True, ""
def argkey(q, fn, i):
    for _, v, p in q.paths(fn):
        for x in walk(v):
            if x.k == "arg" and x.a[-1] == i: return x.a
    return (fn.canon, i)

def flag_of(k, pl, fn):
    """the condition reads the parallel flag (option, argument or input column) or the engine's own"""
    if call(k, CTX): return "engine"
    if pl is not None and pl.kw_arg is not None and k.k == "fld" and k.a[0].k == "arg" and k.a[0].a[-1] == pl.kw_arg:
        f = pl.kwargs.by_name("parallel")
        return "flag" if f is not None and f.index == k.a[1] else None
    if pl is None and k.k == "arg":
        return "flag" if k.a[-1] in par_args(fn) else None
    if pl is not None and k.k == "pay":
        g = call(k.a[0], "ChunkedArray::get")
        b = g and g[0].k == "pay" and call(g[0].a[0], "Series::bool", "SeriesTrait::bool")
        if b and b[0].k == "idx" and b[0].a[0].k == "arg" and g[1] is mk("int", 0): return "input"
    return None

def par_args(fn):
    """parameters that carry the flag: bool, named ...parallel"""
    names = {p for n, l in fn.debug.items() if n.endswith("parallel") for p in l}
    return [i for i, ty in fn.args if ty == "bool" and "_%d" % i in names]

def run(ctx, rep):
    P = Plugs(ctx.native)
    q = P.nf()
    f = P.fn("split_offsets")
    if f is None: rep.undecide("split_offsets", "not found")
    else:
        ok, msg = tiles(P.nf(opaque=set()), f)
        if ok is None: rep.undecide("split_offsets", msg[:300])
        else: rep.check("split_offsets", ok, "utils::split_offsets: " + msg[:300])
    targets = [(s, pl.body, pl) for s, pl in sorted(P.n.plugins.items())]
    local = [g for g in P.n.prog.fns.values() if par_args(g) and "closure" not in g.canon and not g.canon.split("::")[-1].startswith("__")]
    takes = {"::".join(g.canon.split("::")[-2:]): par_args(g) for g in local}
    targets += [("::".join(g.canon.split("::")[-2:]), g, None) for g in local]
    for name, fn, pl in targets:
        if pl is not None and not mentions(P, fn, pl): continue
        try: paths = q.paths(fn)
        except TooBig as e: rep.undecide(name, "no normal form within the budget"); continue
        one(q, name, fn, pl, paths, rep, takes)
    rep.floor("routines with a parallel option", 25)

def mentions(P, fn, pl):
    if pl.kwargs is not None and pl.kwargs.by_name("parallel"): return True
    return pl.ctx_arg is not None and any("CallerContext" in (t.callee or "") and (t.callee or "").endswith("parallel") for g in P.n.w.family(fn) for _, t in g.calls())

def hand_on(q, t, takes):
    """a call that only hands the flag on to a function checked on its own"""
    m = {}
    for x in walk(t):
        for i in (takes.get(x.a[0], ()) if x.k == "call" else ()):
            if i + 1 < len(x.a): m[x] = mk("call", *x.a[:i + 1], mk("const", "flag"), *x.a[i + 2:])
    return q.subst(t, m) if m else t

def one(q, name, fn, pl, paths, rep, takes):
    flags = {k: flag_of(k, pl, fn) for c, _, _ in paths for k in c}
    flags = {k: v for k, v in flags.items() if v}
    if not any(v in ("flag", "input", "engine") for v in flags.values()):
        rep.undecide(name, "the parallel option is not tested on any path"); return
    rep.count("routines with a parallel option")
    val, rw = {}, Chunks(q)
    for c, v, _ in paths:
        if v not in val: val[v] = hand_on(q, rw.rewrite(v), takes)
    for b in dict.fromkeys(rw.bad): rep.fail(name + ": chunk", "%s: the parallel branch %s" % (name, b))
    for t in dict.fromkeys(rw.odd): rep.undecide(name + ": chunk", "not a chunked evaluation the rule reads: " + show(t, 5)[:200])
    rep.count("chunked evaluations rewritten", rw.done)
    for c, v, _ in paths:
        for t, (N, sizes) in rw.other.items() if has_split(v) else ():
            if not any(x is t for x in walk(v)): continue
            if any(c.get(q.cmp("Eq", N, z)) is True for z in sizes): continue
            if c.get(q.cmp("Eq", N, mk("int", 1))) is True: rep.fail(name + ": chunk", "%s: the parallel branch splits %s rows, which is 1 here, of what has %s" % (name, show(N, 6)[:120], show(sizes[0], 6)[:120]))
            else: rep.undecide(name + ": chunk", "the lengths %s and %s" % (show(N, 6)[:120], show(sizes[0], 6)[:120]))
    groups, kk = {}, {}
    def key(k):
        if k not in kk: kk[k] = hand_on(q, rw.rewrite(k), takes)
        return kk[k]
    for c, v, _ in paths:
        groups.setdefault(frozenset((k, x) for k, x in c.items() if k in flags), []).append(({key(k): x for k, x in c.items() if k not in flags}, v))
    gs = list(groups.items())
    seen = set()
    for i in range(len(gs)):
        for j in range(i + 1, len(gs)):
            for c, v in gs[i][1]:
                for d, w in gs[j][1]:
                    a, b = val[v], val[w]
                    if a is b or (a, b) in seen: 
                        rep.obl += 1; rep.ok += 1
                        continue
                    if not all(d.get(k, x) == x for k, x in c.items()): continue
                    seen.add((a, b))
                    verdict, hs = judge(a, b, q.recs)
                    if verdict == "same": rep.obl += 1; rep.ok += 1
                    elif a.k == b.k == "var" and a.a[0] != b.a[0] and any(size(k, 40) > 30 or k.k == "rec" for k in c.keys() ^ d.keys()): rep.undecide("%s: outcomes %d" % (name, len(seen)), "different outcomes under different tests")
                    elif verdict == "unclear" or rw.bad or rw.odd or has_split(a) or has_split(b): rep.undecide("%s: outcomes %d" % (name, len(seen)), holestr(hs, 2) if hs else "large")
                    else: rep.check("%s: parallel and serial" % name, False, "%s: the parallel and the serial branch differ: %s" % (name, holestr(hs)))
