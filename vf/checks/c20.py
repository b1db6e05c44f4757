"""C20: unchecked memory access only where the index or length is known to be within the buffer."""
RULE = ("every use of an unsafe library routine (unchecked element and block access, length setting, raw matrix parts, raw pointer arithmetic and access, transmutation, unchecked unwrapping and text) in live native code is listed from the intermediate code; "
        "on every path that reaches it, the loops, tests and sizes on that path (traced to the sizes of the arguments in a zone domain) must put the index below the size of what is accessed, the length at or below the capacity, the presence before the unwrapping; "
        "transmutation is accepted between slices of f64/f32 and of their transparent ordered wrapper; raw parts must be the pointer, sizes and strides of one and the same matrix in their places; "
        "the routine that fills a buffer through a raw pointer must equal its reference, size checks included; a routine that relies on a column for the intercept must be called with one")
TECHNIQUE = "path-sensitive abstract interpretation of MIR with a zone (difference-bound) domain over sizes and positions"
TRUST = ["faer and ndarray report their sizes and strides truthfully", "a model's coefficients and a regression's target have at least one column", "OrderedFloat<T> is repr(transparent) over T"]
import re
from ..equiv import pair, live, check_once
from ..msym import Interp, show, walk, mk
from ..zone import Zone, entails, last, ZERO
from .. import zone as Zn
from ..mterm import last_of

RISKY = re.compile(r"^(get_unchecked|get_unchecked_mut|get_mut_unchecked|set_len|from_raw_parts|from_raw_parts_mut|from_shape_ptr|unwrap_unchecked|from_utf8_unchecked|uget|uget_mut|transmute|transmute_copy|slice_unchecked|read_unaligned|copy_nonoverlapping|value_unchecked|get_unchecked_mut|assume_init|from_raw|split_at_unchecked|swap_unchecked|unreachable_unchecked)$")
ELEM = {"get_unchecked", "get_unchecked_mut", "get_mut_unchecked", "uget", "uget_mut", "value_unchecked"}
GENERATED = re.compile(r"_polars_plugin_|__rust_|__py|_PYO3|__pyo3|<PyInit|_::")
FILLS = {"utils::series_to_row_major_slice"}
# routines that assume at least one column when told the last one is the intercept
NEEDS = {"linalg::lr_solvers::faer_coordinate_descent", "linalg::lr_solvers::faer_solve_lstsq", "linalg::lr_solvers::faer_solve_lstsq_rcond", "linalg::lr_online_solvers::faer_qr_lstsq_with_inv"}

def boxed(f, l):
    """a raw pointer taken from a Box (compiler-generated), not from the programmer"""
    for b in f.blocks.values():
        for s in b.stmts:
            if s.text.startswith("_%d = " % l): return "Unique<" in s.text or "(Transmute)" in s.text and "Box" in s.text or "NonNull" in s.text
    return False

def sites(f):
    out = []
    for i, b in f.blocks.items():
        for s in b.stmts:
            m = re.search(r"as (&.*|\[.*|[\w:<>]+) \(Transmute\)", s.text)
            if m and not re.search(r"\*(const|mut) ", s.text.split(" as ")[-1]): out.append((i, "transmute", s.text))
            for m in re.finditer(r"\(\*_(\d+)\)", s.text):
                l = int(m.group(1))
                if f.locals.get(l, "").startswith(("*const", "*mut")) and not boxed(f, l): out.append((i, "raw access", s.text))
        cal = getattr(b.term, "callee", None)
        if cal:
            l = last_of(cal)
            if RISKY.match(l) and "SliceInfo" not in cal: out.append((i, l, cal))
            elif re.search(r"ptr::(mut_ptr|const_ptr)::<impl .*>::(add|offset|sub|read|write)$", cal): out.append((i, "raw " + l, cal))
    return out

def run(ctx, rep):
    G = pair(ctx); p = G.p; alive = live(G)
    n = p.new
    it = Interp(n.prog, n.w, max_paths=600, inline=lambda f: False)
    for c, f in sorted(p.a.items()):
        if f.kind != "fn" or GENERATED.search(c) or "promoted[" in c: continue
        top = c.split("::{closure")[0]
        if c not in alive and top not in alive: continue
        ss = sites(f)
        rep.count("functions")
        if not ss: continue
        rep.count("functions_with_unsafe", 1); rep.count("sites", len(ss))
        if top in FILLS: continue
        paths = it.run(f)
        if it.truncated: rep.undecide(c, "too many paths"); continue
        tv = Zone(paths, pre=top in NEEDS)
        for b, kind, text in ss:
            key = (c, b, kind)
            if kind == "transmute": transmute(rep, f, c, b, text); continue
            hits = [(x, e) for x in paths for e in x.events if e.block == b and e.fn is f]
            if not hits:
                if kind.startswith("raw"): unchecked_raw(rep, G, c, kind)
                else: rep.undecide((c, b), "%s: no path reaches the unchecked access (%s)" % (c, text[:80]))
                continue
            worst = None
            for x, e in hits:
                v, why = judge(tv, x, e, kind)
                if worst is None or RANK[v] > RANK[worst[0]]: worst = (v, why)
            v, why = worst
            if v == "ok": rep.check(key, True, "")
            elif v == "bad": rep.check(key, False, "%s: %s" % (c, why))
            elif G.same(c): rep.notes.append("by reference: %s %s" % (c, why)) if hasattr(rep, "notes") else None; rep.count("by_reference"); rep.check(key, True, "")
            else: rep.undecide((c, b), "%s: %s" % (c, why))
    for c in sorted(FILLS):
        if c in p.a: check_once(G, c, rep, "fills its buffer otherwise than the checked reference")
        else: rep.undecide(c, "not in the tree under that name")
    heights(rep, G, n, it)
    callers(rep, G, n, alive)
    rep.floor("functions", 300); rep.floor("sites", 15)

RANK = {"ok": 0, "open": 1, "bad": 2}

def heights(rep, G, n, it):
    """the buffer of rows x columns is filled only after every column was found to have that many rows"""
    for c in sorted(FILLS & set(G.p.a)):
        f = G.p.a[c]
        paths = it.run(f)
        ks = {e.args[1] for x in paths for e in x.events if e.key.endswith("set_len")}
        for x in paths:
            if x.outcome != "back": continue
            for t, b in x.conds[x.start:]:
                if t.k == "bin" and t.a[0] in ("Lt", "Le", "Eq") and any(y.k == "call" and last(y) == "len" and y.a[2].k in ("pay", "fld") for y in t.a[1:]) and any(y in walk(k) for k in ks for y in t.a[1:]):
                    rep.check((c, "height", t), t.a[0] == "Eq" and b is True, "%s: a column goes on to be written when %s is %s, which does not make its length the declared one" % (c, show(t, 5), b))

def unchecked_raw(rep, G, c, kind):
    if c in G.p.b and G.same(c): rep.count("by_reference"); rep.check((c, kind), True, "")
    else: rep.undecide((c, kind), "%s: raw pointer access outside the routines known to need it" % c)

def transmute(rep, f, c, b, text):
    m = re.search(r"= (?:move|copy) _(\d+) as (.*) \(Transmute\)", text)
    src = f.locals.get(int(m.group(1)), "") if m else ""
    dst = m.group(2) if m else ""
    el = lambda t: re.sub(r"&('\w+ )?(mut )?", "", re.sub(r"(ordered_float::)?OrderedFloat<(\w+)>", r"\2", t))
    if el(src) == el(dst): rep.check((c, b, "transmute"), True, ""); return
    size = {"f64": 8, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "f32": 4, "u32": 4, "i32": 4, "u16": 2, "i16": 2, "u8": 1, "i8": 1, "bool": 1}
    a, d = re.sub(r"[\[\]]", "", el(src)), re.sub(r"[\[\]]", "", el(dst))
    if a in size and d in size and size[a] != size[d]: rep.check((c, b, "transmute"), False, "%s: a buffer of %s is read as one of %s" % (c, a, d))
    else: rep.undecide((c, b), "%s: reinterprets %s as %s" % (c, src, dst))

def judge(tv, x, e, kind):
    conds = x.conds[:e.nconds]
    if kind in ELEM: return element(tv, conds, e)
    if kind == "set_len":
        v, k = e.args[0], e.args[1]
        while v.k == "mut": v = Zn.base_of(v)
        if v.k == "call" and last(v) in ("with_capacity",):
            cap = v.a[2]
            if cap is k: return "ok", ""
            return below(tv, conds, [cap, k], tv.lin(k), tv.lin(cap), 0, "the length set (%s) exceeds the capacity (%s)" % (show(k, 5), show(cap, 5)))
        return "open", "length set on %s" % show(v, 4)
    if kind == "unwrap_unchecked":
        t = e.args[0]
        h = {c: b for c, b in conds}.get(mk("has", t))
        return ("ok", "") if h is True else ("bad", "%s is taken out without knowing that it is there" % show(t, 5))
    if kind in ("from_raw_parts", "from_shape_ptr"): return parts(e)
    return "open", "%s is not among the accesses this rule can bound" % kind

def element(tv, conds, e):
    base, idx = e.args[0], list(e.args[1:])
    two = bool(re.search(r"\bMat(Ref|Mut)?\b|ArrayBase", e.callee)) and (len(idx) == 2 or idx and idx[0].k in ("array", "tuple"))
    if len(idx) == 1 and idx[0].k in ("array", "tuple"): idx = list(idx[0].a)
    worst = ("ok", "")
    for ax, i in enumerate(idx):
        size = tv.dim(base, ax) if two else tv.length(base)
        name = ("rows", "columns")[ax] if two else "elements"
        if i.k == "RangeFull" or "RangeFull" in str(i.a[0] if i.a else ""): continue
        if i.k == "struct" and str(i.a[0]).endswith("Range"):
            v = below(tv, conds, [base] + idx, tv.lin(i.a[2]), size, 0, "the block %s may go past the %s of %s" % (show(i, 5), name, show(tv.origin(base), 4)), i.a[2])
        else:
            v = below(tv, conds, [base] + idx, tv.lin(i), size, -1, "position %s may be past the %s of %s" % (show(i, 5), name, show(tv.origin(base), 4)), i)
        if RANK[v[0]] > RANK[worst[0]]: worst = v
    return worst

def below(tv, conds, terms, x, y, k, msg, idx=None):
    """x <= y + k on this path, for every value of the options the sizes depend on"""
    terms = list(terms) + [a[1] for a in (x[0], y[0]) if isinstance(a, tuple)]
    fl = [f for f in tv.flags(terms) if f not in dict(conds)]
    import itertools
    state = "ok"
    for vals in itertools.product((True, False), repeat=len(fl)):
        facts = tv.facts(conds, terms, dict(zip(fl, vals)))
        if entails(facts, x, y, k): continue
        if y == (ZERO, 0) or column_ok(y, x, k): continue
        # the largest position the loop reaches
        top = x
        if idx is not None: top = tv.reach(idx) or x
        if Zn.dist(facts, y[0], top[0]) + y[1] - top[1] <= -k - 1: return "bad", msg
        if idx is not None and plain(x) and plain(y) and Zn.dist(facts, x[0], y[0]) == float("inf"): state = "bad"; continue
        if state == "ok": state = "open"
    return state, msg if state != "ok" else ""

def column_ok(y, x, k):
    """position 0 of the columns of a model's coefficients"""
    return x == (ZERO, 0) and isinstance(y[0], tuple) and y[0][0] == "cols" and y[0][1].k == "call" and last(y[0][1]) in ("coefficients", "coeffs")

def plain(a):
    """a size or value of an argument, not a computed one; or a position whose bound is one"""
    a = a[0]
    if a is ZERO: return True
    t = a[1]
    if a[0] in ("rows", "cols", "len"): return t.k == "arg" or t.k == "fld" and plain((("t", t.a[0]), 0))
    return t.k == "arg" or t.k == "pay" and t.a[0].k == "call" and last(t.a[0]) == "next"

def parts(e):
    a = [x for x in e.args]
    if last_of(e.callee) == "from_raw_parts" and len(a) == 5:
        def strip(t):
            while t.k in ("pay", "cast", "ref") or t.k == "call" and last(t) in ("try_into", "into", "as_ptr"): t = t.a[-1] if t.k != "pay" else t.a[0]
            return t
        src = strip(a[0])
        want = [("nrows", "rows"), ("ncols", "cols")]
        for k, t in enumerate(a[1:3]):
            t = strip(t)
            if not (t.k == "call" and last(t) == want[k][0] and t.a[2] is src): return size_of(t, src, want[k][0])
        for k, t in enumerate(a[3:5]):
            u = strip(t)
            j = None
            if u.k in ("idx", "index", "fld", "at") and len(u.a) == 2: j, u = u.a[1], strip(u.a[0])
            jj = j.a[0] if hasattr(j, "k") and j.k == "int" else j
            if not (u.k == "call" and last(u) in ("strides", "row_stride", "col_stride") and u.a[2] is src): return "open", "stride %s" % show(t, 5)
            if last(u) == "strides" and jj is not None and jj != k: return "bad", "the strides of rows and columns are exchanged"
        return "ok", ""
    if last_of(e.callee) == "from_shape_ptr" and len(a) == 2 and a[0].k == "call" and last(a[0]) == "strides" and len(a[0].a) == 4:
        def strip(t):
            while t.k in ("pay", "cast", "ref") or t.k == "call" and last(t) in ("try_into", "into", "as_ptr"): t = t.a[-1] if t.k != "pay" else t.a[0]
            return t
        src, shape, st = strip(a[1]), a[0].a[2], a[0].a[3]
        if shape.k == st.k == "tuple" and len(shape.a) == len(st.a) == 2:
            got = [strip(t) for t in shape.a + st.a]
            if all(t.k == "call" and t.a[2] is src for t in got):
                ls = [last(t) for t in got]
                if ls == ["nrows", "ncols", "row_stride", "col_stride"]: return "ok", ""
                if set(ls) <= {"nrows", "ncols", "row_stride", "col_stride"}: return "bad", "sizes and strides are out of place (%s)" % ", ".join(ls)
    return "open", "raw parts %s" % ", ".join(show(x, 4) for x in a)

def size_of(t, src, want):
    if t.k == "call" and last(t) in ("nrows", "ncols", "len") and t.a[2] is src: return "bad", "the number of %s is given where %s belongs" % (last(t), want)
    return "open", "size %s" % show(t, 5)

def callers(rep, G, n, alive):
    """whoever tells a solver that the last column is the intercept gives it a column"""
    it = Interp(n.prog, n.w, max_paths=600, inline=lambda f: False)
    for c, f in sorted(G.p.a.items()):
        if f.kind != "fn" or c not in alive and c.split("::{closure")[0] not in alive: continue
        calls = [(i, b.term.callee) for i, b in f.blocks.items() if getattr(b.term, "callee", None) and any(last_of(b.term.callee) == x.split("::")[-1] for x in NEEDS)]
        if not calls: continue
        rep.count("callers")
        paths = it.run(f)
        tv = Zone(paths)
        for i, cal in calls:
            hits = [(x, e) for x in paths for e in x.events if e.block == i and e.fn is f]
            verdict = None
            for x, e in hits:
                fs = n.prog.resolve(cal)
                if len(fs) != 1: continue
                hb = [k for k, (_, t) in enumerate(fs[0].args) if t == "bool"]
                if not hb: continue
                flag, m = e.args[hb[0]], e.args[0]
                conds = dict(x.conds[:e.nconds])
                if flag.k == "bool" and flag.a[0] is False or conds.get(flag) is False: ok = "ok"
                else: ok = grown(tv, m, conds, flag)
                if verdict is None or RANK[ok] > RANK[verdict]: verdict = ok
            if verdict in (None, "ok"): rep.check((c, i, "intercept"), True, "")
            elif verdict == "bad": rep.check((c, i, "intercept"), False, "%s: %s is told that the last column is the intercept, but the matrix has no such column" % (c, last_of(cal)))
            elif G.same(c): rep.count("by_reference"); rep.check((c, i, "intercept"), True, "")
            else: rep.undecide((c, i), "%s: whether the matrix given to %s has a column" % (c, last_of(cal)))

def grown(tv, m, conds, flag):
    o = tv.origin(m)
    if any(s.k == "call" and last(s) in ("full", "ones") for s in walk(o)): return "ok"
    return "open"
