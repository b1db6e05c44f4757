"""C07: row i of a result describes row i of the input."""
RULE = ("in every loop that fills output columns, each path through the body appends exactly one entry to each column it fills, a running position is advanced exactly on the paths whose entry was read through it, "
        "the columns of one struct are filled by the same loops, rows written before a loop are those the loop passes over, and the chain of iterators that yields a row-by-row result neither drops, repeats nor reverses rows")
TECHNIQUE = "typestate and counting analysis of column builders over path-sensitive abstract interpretation of MIR (loop transitions), closures included"
TRUST = ["The builder methods append_value, append_null, append_option, append_slice and append_values_iter add one row; Polars' row-wise kernels keep order"]
from .. import builders as B
from ..plugs import Plugs
from ..msym import T, mk, show, walk, kids
from ..nf import TooBig, Poly, _padd
from ..rowlen import RowLen, call, last
from .c04 import BIG

CLOSED = {"faer_solve_lstsq", "faer_coordinate_descent", "faer_weighted_lstsq", "faer_nn_lstsq", "faer_nn_lstsq_f32", "series_to_mat_for_lstsq"}
ONE = {"append_value", "append_null", "append_option", "append_slice", "append_values_iter", "append_opt_slice", "append_series", "append_opt_series", "append_trusted_len_iter", "append_values_iter_trusted_len", "append_empty"}
LOSES = {"filter", "filter_map", "take_while", "skip_while", "flat_map", "step_by", "dedup", "unique", "map_while", "cycle", "rev", "skip", "sorted", "sorted_by", "sorted_unstable_by", "chain", "filter_ok", "flatten_ok", "intersperse"}

def base(t):
    while t.k == "mut": t = t.a[3]
    return t
def is_builder(t):
    r = base(t)
    return r.k == "call" and "Builder" in r.a[0]
def is_vec(t):
    r = base(t)
    return r.k == "call" and r.a[0].split("::")[-2:-1] == ["Vec"]
def origin(t, loops):
    """the construction a loop variable starts from, through enclosing and earlier loops"""
    for _ in range(20):
        t = base(t)
        if t.k == "lv":
            t = dict(t.a[0].a[1]).get(t.a[1], None)
            if t is None: return None
        else: return t
    return None

def where(loop): return str(loop.a[0][0]).split("::")[-1] if not str(loop.a[0][0]).endswith("}") else "::".join(str(loop.a[0][0]).split("::")[-2:])

def appended(t, lv):
    """[values appended] on the way from lv to t, None when t does not extend lv"""
    out = []
    while t.k == "mut":
        if t.a[0].split("::")[-1] not in ONE: return None
        out.append((t.a[0].split("::")[-1], t.a[4:])); t = t.a[3]
    return out[::-1] if t is lv else None
def pushed(t, lv):
    n = 0
    while t.k == "mut":
        if t.a[0].split("::")[-1] != "push": return None
        n += 1; t = t.a[3]
    return n if t is lv else None

def readings(v, c):
    """how the value reads through the position c: {'at', 'off', 'other'}"""
    out = set()
    for t in walk(v):
        for i, x in enumerate(kids(t)):
            if x is not c: continue
            if t.k == "idx": out.add("at")
            elif t.k == "struct" and "Range" in str(t.a[0]): out.add("at")
            elif t.k == "call" and last(t) in ("get", "get_unchecked", "row", "col", "index", "nth", "split_at", "subrows", "row_mut", "slice"): out.add("at")
            elif t.k == "bin": out.add("arith")
            else: out.add("other")
    return out

def trip(R, init):
    return R.length(init)

def loops_of(seen):
    """{loop: [paths that go round]}"""
    out = {}
    for nm, ps in seen:
        for x in ps:
            if x.outcome == "back": out.setdefault(x.loop, []).append(x)
    return out

def run(ctx, rep):
    P = Plugs(ctx.native, max_paths=4000)
    flags = {}
    for u in B.uses(ctx):
        if u.symbol: flags.setdefault(u.symbol, []).append(u.flags)
    for sym, p in sorted(P.n.plugins.items()):
        q = P.nf(max_paths=20000, opaque=set(P.opaque) | CLOSED) if sym in BIG else P.nf()
        q.seen = []
        try: ps = q.run_fn(p.body)
        except TooBig: rep.undecide(sym, "not read within the budget"); continue
        try: q.of_paths(ps, 0)
        except TooBig: pass
        seen, q.seen = q.seen, None
        R = RowLen(q)
        closures(q, seen)
        rep.count("routines")
        fl = flags.get(sym, [])
        rowwise = bool(fl) and not any(f.get("changes_length") or f.get("returns_scalar") for f in fl)
        done = {}
        for loop, back in loops_of(seen).items():
            inits = dict(loop.a[1])
            cols = {v for v in inits if origin(inits[v], None) is not None and is_builder(origin(inits[v], None))}
            cols = {v for v in cols if any(x.trans.get(v) is not mk("lv", loop, v) for x in back)}
            if not cols:
                vecs(rep, sym, loop, back, inits, done); continue
            w = where(loop)
            used = set()
            for x in back:
                for v in cols:
                    for _, ys in appended(x.trans[v], mk("lv", loop, v)) or ():
                        for y in ys: used |= {c for c, i in inits.items() if i.k == "int" and "at" in readings(y, mk("lv", loop, c))}
            for x in back:
                vals = []
                for v in cols:
                    lv = mk("lv", loop, v)
                    a = appended(x.trans[v], lv)
                    key = (sym, w, col(inits[v]))
                    if a is None:
                        if ("u",) + key not in done: done[("u",) + key] = 1; rep.undecide("%s: %s" % (sym, col(inits[v])), "column not followed through the loop in " + w)
                        continue
                    put(rep, done, ("append",) + key, len(a) == 1, "%s: in the loop of %s a pass appends %d entries to column %r%s" % (sym, w, len(a), col(inits[v]), "" if len(a) else " (row skipped)"), (x, loop))
                    vals += [y for _, ys in a for y in ys]
                    for n, ys in a:
                        if n in ("append_value", "append_slice", "append_option"):
                            for y in ys[:1]: put(rep, done, ("varies",) + key, varies(y, loop), "%s: in the loop of %s column %r gets the same entry, %s, on every pass" % (sym, w, col(inits[v]), show(y, 3)[:80]), (x, loop))
                cursors(rep, sym, loop, x, inits, vals, done, w, used)
            vecs(rep, sym, loop, back, inits, done)
            prefix(rep, sym, loop, inits, cols, R, done, w, P, back)
            if rowwise:
                for d in drivers(loop):
                    if any(inits[v].k == "lv" for v in cols) and call(d, "skip"): d = call(d, "skip")[0]
                    bad = loses(d)
                    put(rep, done, ("driver", sym, w), bad is None, "%s: the rows of the loop of %s pass through %s, which does not keep one row per input row in order" % (sym, w, bad))
        for x in ps:
            if x.outcome == "return" and x.value is not None and x.value.k == "var" and x.value.a[0] == "Ok": columns(rep, sym, x.value.a[1], R, done)
        if rowwise:
            rep.count("row_by_row_routines")
            for x in ps:
                if x.outcome == "return" and x.value is not None and x.value.k == "var" and x.value.a[0] == "Ok":
                    for c in outputs(x.value.a[1], R): chain(rep, sym, c, done)
        for k, v in done.items():
            if isinstance(v, tuple): rep.check(k, v[0], v[1])
    rep.floor("routines", 90); rep.floor("loops_with_columns", 15); rep.floor("row_by_row_routines", 50)

def closures(q, seen):
    """run the closures the routine hands to parallel or lazy row operations"""
    done = set()
    n = 0
    while n < len(seen):
        nm, ps = seen[n]; n += 1
        for x in ps:
            for t in ([x.value] if isinstance(x.value, T) else []) + [i for l in x.loops for _, i in l.a[1]]:
                for c in walk(t):
                    if c.k == "closure" and c not in done and len(done) < 60:
                        done.add(c)
                        f = q.prog.by_closure.get(c.a[0])
                        if f is None or not f.args: continue
                        q.seen = seen
                        try: q.run_value(c, [mk("bv", 0, i) for i in range(max(1, len(f.args) - 1))])
                        except Exception: pass
                        q.seen = None

def col(t):
    o = origin(t, None)
    if o is None: return "?"
    for a in o.a[2:]:
        if a.k == "str" and a.a[0]: return a.a[0]
    return "?"
def put(rep, done, key, ok, msg, at=None):
    if key not in done:
        done[key] = (True, "")
        if key[0] == "append": rep.count("loops_with_columns")
    if not ok: done[key] = (False, msg)

def varies(y, loop):
    """does an entry depend on the pass? constants (NaN for a missing row) need not"""
    own = {v for v, _ in loop.a[1]}
    ts = list(walk(y))
    if any(t.k == "lv" for t in ts): return True
    return not any(t.k in ("idx", "arg", "call", "mut") for t in ts)

def cursors(rep, sym, loop, x, inits, vals, done, w, used):
    for v, i in inits.items():
        if i.k != "int": continue
        c = mk("lv", loop, v)
        if c is x.trans[v] and not any(c in set(walk(y)) for y in vals): continue
        t = x.trans[v]
        step = 0 if t is c else 1 if t.k == "bin" and t.a[0] == "Add" and {t.a[1], t.a[2]} == {c, mk("int", 1)} else None
        rd = set()
        for y in vals: rd |= readings(y, c)
        if not rd and step is None: continue
        key = (sym, w, "position")
        if "at" in rd:
            if step is None: rep.undecide("%s: position in %s" % (sym, w), "its step is not read: " + show(t, 4)[:80]); continue
            put(rep, done, ("cursor",) + key, step == 1, "%s: in the loop of %s an entry is read at a position that is not advanced" % (sym, w))
        elif not rd:
            if v in used: put(rep, done, ("cursor",) + key, step == 0, "%s: in the loop of %s the reading position is advanced on a pass that reads nothing through it" % (sym, w))
        elif rd == {"arith"}:
            put(rep, done, ("cursor",) + key, not shifted(vals, c), "%s: in the loop of %s an entry is read beside the running position" % (sym, w))

def shifted(vals, c):
    """is some element read at c + constant alone?"""
    for v in vals:
        for t in walk(v):
            ix = t.a[1] if t.k == "idx" else None
            if ix is not None and ix.k == "bin" and ix.a[0] in ("Add", "Sub") and c in ix.a[1:] and any(isinstance(y, T) and y.k == "int" for y in ix.a[1:]): return True
    return False

def vecs(rep, sym, loop, back, inits, done):
    """vectors filled side by side"""
    vs = {}
    for v, i in inits.items():
        o = origin(i, None)
        if o is not None and is_vec(o) and o.a[0].split("::")[-1] in ("new", "with_capacity"):
            ns = [pushed(x.trans[v], mk("lv", loop, v)) for x in back]
            if None not in ns and any(ns): vs[v] = ns
    if len(vs) > 1:
        rows = list(zip(*vs.values()))
        put(rep, done, ("vectors", sym, where(loop)), len({r for r in rows if any(r)}) == 1, "%s: in the loop of %s a pass adds %s entries to vectors that are filled side by side" % (sym, where(loop), " or ".join("/".join(map(str, r)) for r in sorted({r for r in rows if any(r)}))))

def drivers(loop):
    """the iterators a loop goes through"""
    return [i for v, i in loop.a[1] if i.k == "call" and (i.a[0].split("::")[-1] in ("iter", "enumerate", "zip", "skip", "map", "into_no_null_iter", "rev", "take", "chunks_exact", "iter_rows", "rows", "step_by", "filter", "skip_while", "take_while", "filter_map", "flat_map", "chain") or i.a[0].startswith("Iterator::"))]

def prefix(rep, sym, loop, inits, cols, R, done, w, P, back):
    """a column that an earlier loop began: what that loop wrote is what this one passes over"""
    for v in sorted(cols, key=str):
        i = inits[v]
        if i.k != "lv": continue
        first = i.a[0]
        if first.a[0] == loop.a[0] or v not in dict(first.a[1]): continue
        lab = "%s: rows before the loop of %s" % (sym, w)
        d1, d2 = drivers(first), drivers(loop)
        if len(d1) != 1 or len(d2) != 1: rep.undecide(lab, "not read"); return
        n1 = flat(rowsof(d1[0], R, P), R)
        if n1 is None: rep.undecide(lab, "their number is not read"); return
        src, skipped = length_minus(d2[0], R)
        skipped = flat(skipped, R)
        if skipped is None:
            n2 = flat(rowsof(d2[0], R, P), R)
            if n2 is None: rep.undecide(lab, "the number of rows of the loop is not read")
            else:
                total = _padd(n1, n2)
                mine = {m for m in n1 if m}
                put(rep, done, ("prefix", sym, w), not any(m in total for m in mine) and not total.get(()), "%s: %s rows are written before the loop of %s, which adds %s: the result has %s rows" % (sym, pstr(n1), w, pstr(n2), pstr(total)))
        else: put(rep, done, ("prefix", sym, w), skipped == n1, "%s: %s rows are written before the loop of %s, which passes over %s" % (sym, pstr(n1), w, pstr(skipped)))
        # the input row an entry is computed from
        for x in back:
            for c in cols:
                for _, ys in appended(x.trans[c], mk("lv", loop, c)) or ():
                    for y in ys:
                        for a in rows_read(y):
                            off = flat(offset(a, R), R)
                            if off is not None: put(rep, done, ("row", sym, w), off == n1, "%s: in the loop of %s the entry for row %s + i is computed from row %s + i" % (sym, w, pstr(n1), pstr(off)))
        return
def rows_read(v):
    """first rows of the row slices a value is computed from"""
    for t in walk(v):
        if t.k == "call" and last(t) == "get" and len(t.a) > 3 and t.a[3].k == "struct" and t.a[3].a[0].split("::")[-1] == "Range": yield t.a[3].a[1]
def offset(a, R):
    """a - (running index of an enumerated iteration)"""
    n = R.num(a)
    if n is None: return None
    for m in list(n):
        for x, e in m:
            if x.k in ("fld", "pay", "proj") and any(c.k == "call" and last(c) == "next" for c in walk(x)):
                if len(m) == 1 and e == 1 and n[m] == 1:
                    return Poly({k: c for k, c in n.items() if k != m})
    return None
def rowsof(t, R, P):
    """how many times an iterator yields"""
    a = call(t, "iter", "enumerate", "into_iter")
    if a and len(a) == 1: return rowsof(a[0], R, P)
    if t.k == "struct" and t.a[0].split("::")[-1] == "Range":
        a, b = R.num(t.a[1]), R.num(t.a[2])
        return _padd(b, a, -1) if a is not None and b is not None else None
    n = R.length(t)
    if n is not None: return n
    if t.k == "call":
        f = P.fn(t.a[0].split("::")[-1])
        if f is not None and "Vec<" in f.ret: return filled(f, t.a[2:], P)
    return None
def filled(f, args, P):
    """length of the vector a function of the crate returns, when every path gives the same"""
    q = P.nf(inline=lambda g: False)
    try: ps = q.run_fn(f, list(args))
    except TooBig: return None
    R, out = RowLen(q), set()
    per = {}
    for x in ps:
        if x.outcome == "back":
            for v, i in x.loop.a[1]: per.setdefault((x.loop.a[0], v), set()).add(pushed(x.trans[v], mk("lv", x.loop, v)) if isinstance(x.trans.get(v), T) else None)
    for x in ps:
        if x.outcome != "return" or x.value is None: continue
        t, n = x.value, Poly()
        while True:
            if t.k == "mut" and t.a[0].split("::")[-1] == "push": n = _padd(n, Poly({(): 1})); t = t.a[3]
            elif t.k == "lv":
                l, v = t.a
                k = per.get((l.a[0], v), {None})
                d = drivers(l)
                if len(k) != 1 or None in k or len(d) != 1: return None
                trips = rowsof(d[0], R, P)
                if trips is None: return None
                c = next(iter(k))
                n = _padd(n, Poly({m: c * y for m, y in trips.items() if c * y}))
                t = dict(l.a[1]).get(v)
                if t is None: return None
            elif t.k == "call" and t.a[0].split("::")[-2:-1] == ["Vec"] and last(t) in ("new", "with_capacity"): break
            else: return None
        out.add(tuple(sorted(((str([(show(a, 9), e) for a, e in m]), c) for m, c in n.items()))))
        res = n
    return res if len(out) == 1 else None
def flat(p, R):
    """differences written out (counts do not underflow: C26)"""
    if p is None: return None
    out = Poly()
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            t = m[0][0]
            a = t.a[1:] if t.k == "bin" and t.a[0] == "Sub" else call(t, "abs_diff", "saturating_sub")
            if a:
                x, y = flat(R.num(a[0]), R), flat(R.num(a[1]), R)
                if x is not None and y is not None:
                    d = _padd(x, y, -1)
                    out = _padd(out, Poly({k: c * v for k, v in d.items()})); continue
        out = _padd(out, Poly({m: c}))
    return out
def length_minus(t, R):
    """(source, number of rows skipped at the front)"""
    a = call(t, "skip")
    if a and len(a) == 2: return a[0], R.num(a[1])
    a = call(t, "iter")
    if a and a[0].k == "struct" and a[0].a[0].split("::")[-1] == "Range" and R.num(a[0].a[1]): return a[0], R.num(a[0].a[1])
    return t, None
def pstr(p):
    return " + ".join(("%s*" % c if c != 1 or not m else "") + "*".join(show(x, 4) for x, _ in m) if m else str(c) for m, c in p.items()) or "0"

def columns(rep, sym, v, R, done):
    for x in walk(v):
        s = R.struct_cols(x)
        if not s: continue
        sig = {}
        for c in s[1]:
            g = signature(c)
            if g is not None: sig[c] = g
        if len(sig) > 1:
            put(rep, done, ("struct", sym, ""), len(set(sig.values())) == 1, "%s: the columns of the result are filled by different loops or by different numbers of appends" % sym)

def signature(t):
    """how many entries were appended, loop by loop, to the column the term finishes"""
    while True:
        if t.k == "pay": t = t.a[0]; continue
        if t.k == "var" and len(t.a) == 2: t = t.a[1]; continue
        if t.k == "call" and last(t) in ("into_series", "into_column", "finish", "with_name", "rename", "clone"): t = t.a[2]; continue
        break
    out, n = [], 0
    while True:
        if t.k == "mut":
            if t.a[0].split("::")[-1] not in ONE: return None
            n += 1; t = t.a[3]
        elif t.k == "lv":
            out.append(n); out.append(t.a[0].a[0]); n = 0
            t = dict(t.a[0].a[1]).get(t.a[1])
            if t is None: return None
        elif t.k == "call" and "Builder" in t.a[0]: return tuple(out + [n])
        else: return None

def outputs(v, R):
    s = R.struct_cols(v) if v.k == "call" else None
    out = []
    t = v
    while isinstance(t, T):
        if t.k == "pay": t = t.a[0]; continue
        if t.k == "var" and len(t.a) == 2: t = t.a[1]; continue
        if t.k == "call" and last(t) in ("into_series", "into_column", "with_name", "rename", "clone") and len(t.a) > 2: t = t.a[2]; continue
        break
    s = R.struct_cols(t) if t.k == "call" else None
    return list(s[1]) if s else [t]

ON = {"from_iter", "collect", "map", "zip", "into_series", "into_column", "finish", "from_vec", "from_chunk_iter", "flatten", "iter", "enumerate", "install", "copied", "cloned", "into_par_iter", "collect_vec", "izip", "inspect", "into_iter", "par_iter"}
def loses(t, n=0):
    """an adaptor on the way from the rows to t that does not keep every row in its place"""
    while isinstance(t, T) and n < 60:
        n += 1
        if t.k == "pay": t = t.a[0]; continue
        if t.k == "var" and len(t.a) == 2: t = t.a[1]; continue
        if t.k != "call" or len(t.a) < 3: return None
        l = last(t)
        if l in LOSES and ("Iterator::" in t.a[0] or "Itertools::" in t.a[0]): return l
        if l not in ON: return None
        xs = [y for y in t.a[2:] if y.k not in ("closure", "str", "fn")]
        if not xs: return None
        if l == "zip":
            for y in xs[1:]:
                r = loses(y, n)
                if r: return r
        t = xs[-1] if l in ("from_vec", "from_chunk_iter") and len(xs) > 1 else xs[0]
    return None
def chain(rep, sym, t, done):
    """the chain of calls that makes the column, along the receiver"""
    bad = loses(t)
    put(rep, done, ("chain", sym, ""), bad is None, "%s: the rows of the result pass through %s, which does not keep one row per input row in order" % (sym, bad))
