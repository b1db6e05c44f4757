"""C23: two-column text functions broadcast one row, pair equal lengths, and refuse anything else."""
RULE = ("for every native routine behind a text builder that passes it two of the caller's columns: the conditions of every outcome are evaluated for all combinations of row counts up to 3; with one row in the second column every "
        "feasible outcome must be a map over the rows of the first column that reads the second column's single value, with equal counts a map over pairs of rows, otherwise an error; "
        "and the broadcast row function with the single value put in place of the second row must equal the pairing row function")
TECHNIQUE = "path-sensitive abstract interpretation of MIR to normal forms; feasibility of outcomes over a finite abstraction of row counts; equality of row functions"
TRUST = ["rapidfuzz: BatchComparator::new(a).metric(b) is metric(a, b), symmetric in a and b", "Polars' apply / iterator combinators visit rows in order, once"]
from ..plugs import Plugs, judge, holestr
from ..msym import walk, kids, show, mk, NONE
from ..nf import TooBig
from .. import builders as B
from ..rowwise import Rowwise, call, last
from .c06 import data_args
from .c08 import Chunks

# the single-value object forms of rapidfuzz and their two-text functions
METHOD = {"BatchComparator": None, "RatioBatchComparator": {"similarity": "fuzz::ratio", "normalized_similarity": "fuzz::ratio"}}
ALIAS = {"jaro_winkler::similarity_with_args": "jaro_winkler::normalized_similarity_with_args", "jaro_winkler::similarity": "jaro_winkler::normalized_similarity",
         "jaro::similarity": "jaro::normalized_similarity", "jaro::similarity_with_args": "jaro::normalized_similarity_with_args", "fuzz::ratio_with_args": "fuzz::ratio_with_args"}
COMM = {"intersection", "union", "abs_diff", "min", "max"}
SYM = {"levenshtein", "damerau_levenshtein", "osa", "jaro", "jaro_winkler", "lcs_seq", "hamming", "fuzz", "indel", "prefix", "postfix"}

def two_column(ctx):
    """{symbol: builders} of text builders whose native routine gets two columns of the caller"""
    data, out = data_args(ctx), {}
    for u in B.uses(ctx):
        if u.symbol and ".string." in "." + u.fn + "." and {0, 1} <= data.get(u.symbol, set()): out.setdefault(u.symbol, set()).add(u.fn)
    return out

class Lens:
    """conditions on the row counts of columns 0 and 1, evaluated for given counts"""
    def __init__(self, W): self.W = W
    def term(self, t, n):
        if t.k == "int": return t.a[0]
        l = call(t, "len") or ((t.a[0],) if t.k == "len" else None)
        if l is not None:
            c = self.W.R.col(l[0])
            return n.get(c)
        if t.k == "poly":
            s = 0
            for co, mono in t.a[0]:
                m = co
                for x, e in mono:
                    v = self.term(x, n)
                    if v is None: return None
                    m *= v ** e
                s += m
            return s
        if t.k == "bin" and t.a[0] in ("Add", "Sub", "Mul"):
            a, b = self.term(t.a[1], n), self.term(t.a[2], n)
            return None if a is None or b is None else {"Add": a + b, "Sub": a - b, "Mul": a * b}[t.a[0]]
        m = call(t, "max", "min")
        if m and len(m) == 2:
            a, b = self.term(m[0], n), self.term(m[1], n)
            return None if a is None or b is None else (max if last(t) == "max" else min)(a, b)
        return None
    def truth(self, c, n):
        if c.k == "bool": return c.a[0]
        if c.k == "not":
            v = self.truth(c.a[0], n)
            return None if v is None else not v
        if c.k == "bin" and c.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = self.term(c.a[1], n), self.term(c.a[2], n)
            if a is None or b is None: return None
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[c.a[0]]
        e = call(c, "is_empty")
        if e and self.W.R.col(e[0]) in n: return n[self.W.R.col(e[0])] == 0
        v = self.term(c, n)
        return v
    def feasible(self, conds, n):
        for c, b in conds.items():
            v = self.truth(c, n)
            if v is not None and v != b: return False
        return True

def plain(conds):
    """the conditions besides 'the input is of the type asked for' and 'the option is given'"""
    return {c: b for c, b in conds.items() if not (c.k == "has" and b is True)}

def plainly(q, t):
    """single-value comparator objects as two-text calls; arguments of symmetric functions in a fixed order"""
    for _ in range(3):
        m = {}
        for r in walk(t):
            if r.k != "call" or len(r.a) < 4: continue
            ty, l = r.a[0].rpartition("::")[0].split("::")[-1], last(r)
            n = r
            if ty.endswith("Comparator") and r.a[2].k == "call" and last(r.a[2]) == "new" and "Comparator" in r.a[2].a[0]:
                mod = r.a[2].a[0].split("::")[0]
                name = (METHOD[ty].get(l) if METHOD.get(ty) else mod + "::" + l)
                if name: n = mk("call", name, "", r.a[2].a[2], *r.a[3:])
            name = ALIAS.get(n.a[0], n.a[0])
            if name.split("::")[0] in SYM or l in COMM:
                x, y = sorted(n.a[2:4], key=lambda z: show(z, 40))
                n = mk("call", name, n.a[1], x, y, *n.a[4:])
            if n is not r: m[r] = n
        if not m: return t
        t = q.subst(t, m)
    return t

def function(q, W, row):
    """the row function of two present values: X for the row of column 0, Y for the row (or the single value) of column 1"""
    X, Y = mk("rowvar", "X"), mk("rowvar", "Y")
    m = {}
    for t, c in row.leaves.items(): m[mk("pay", t)] = X if c == 0 else Y; m[mk("has", t)] = mk("bool", True)
    for t in walk(row.body):
        if t.k == "call" and W.single(t) == 1: m[mk("pay", t)] = Y; m[mk("has", t)] = mk("bool", True)
    return plainly(q, q.subst(row.body, m))

def run(ctx, rep):
    P = Plugs(ctx.native, max_paths=4000)
    decl = two_column(ctx)
    rep.count("two_column_routines", len(decl)); rep.floor("two_column_routines", 15)
    GRID = [(a, b) for a in range(4) for b in range(4)]
    for sym, fns in sorted(decl.items()):
        if sym not in P.n.plugins: rep.undecide(sym, "no such routine"); continue
        who = "%s (%s)" % (sym, ", ".join(sorted(fns)))
        try:
            q = P.nf()
            ch = Chunks(q)
            outs = [(c, v, p) for c, v, p in q.paths(P.n.plugins[sym].body)]
        except TooBig: rep.undecide(sym, "no normal form within the budget"); continue
        W = Rowwise(q); L = Lens(W)
        got = []
        for c, v, p in outs:
            if v.k == "var" and v.a[0] == "Ok":
                x = ch.rewrite(v.a[1])
                got.append((c, "ok", W.decode(x), x))
            else: got.append((c, "err" if v.k == "var" and v.a[0] == "Err" else v.k, None, v))
        cast = {c: b for g in got for c, b in g[0].items()}
        for n0, n1 in GRID:
            n = {0: n0, 1: n1}
            feas = [g for g in got if L.feasible(g[0], n)]
            what = "broadcast" if n1 == 1 else "pair" if n0 == n1 else "refuse"
            for c, kind, row, v in feas:
                if kind == "ok" and what == "refuse":
                    rep.check((sym, n0, n1), False, "%s: accepts a first column of %d rows with a second of %d: %s" % (who, n0, n1, show(v, 5)[:200])); continue
                if kind == "ok" and row is None:
                    if v.k == "call" and last(v) in ("full_null", "new_empty"): continue
                    bad = W.mixes(v)
                    if bad is not None: rep.check((sym, "mixes"), False, "%s: not row by row: %s in %s" % (who, show(bad, 5)[:200], show(v, 4)[:200]))
                    else: rep.undecide(sym, "not read as a row-by-row result: " + show(v, 6)[:300])
                    continue
                if kind == "err":
                    # an error caused by something else than the row counts is none of this property's business
                    other = [x for x, b in plain(c).items() if L.truth(x, n) is None and not (call(x, "parallel") or call(x, "get") or x.k == "pay")]
                    if any(x.k == "has" for x, b in c.items() if b is False) or other: continue
                    rep.check((sym, n0, n1, kind), what == "refuse", "%s: refuses a first column of %d rows with a second of %d" % (who, n0, n1))
                    continue
                if kind != "ok": continue
                cols = set(row.leaves.values())
                if what == "pair" or (n0 == n1 == 1):
                    ok = cols == {0, 1} or (n1 == 1 and cols == {0})
                    rep.check((sym, n0, n1), ok, "%s: with %d rows on both sides the result maps over the rows of column(s) %s" % (who, n0, sorted(cols)))
                else: rep.check((sym, n0, n1), cols == {0}, "%s: with one row in the second column and %d in the first the result maps over the rows of column(s) %s" % (who, n0, sorted(cols)))
            if what != "refuse" and not any(k == "ok" for _, k, _, _ in feas): rep.check((sym, n0, n1), False, "%s: no result for a first column of %d rows with a second of %d" % (who, n0, n1))
        # the two forms compute the same function of the two values
        rows = {}
        for c, kind, row, v in got:
            if kind == "ok" and row is not None: rows.setdefault(v, (row, []))[1].append({k: b for k, b in c.items() if L.truth(k, {0: 2, 1: 2}) is None})
        br = [(v, r, c) for v, (r, c) in rows.items() if set(r.leaves.values()) == {0}]
        pr = [(v, r, c) for v, (r, c) in rows.items() if set(r.leaves.values()) == {0, 1}]
        seenp = []
        for v, r, c in br: rep.check((sym, "uses", len(rows)), any(W.single(x) == 1 for x in walk(r.body)), "%s: the broadcast result does not use the single value of the second column" % who)
        for v, r, c in pr:
            ms = {c2 for t, c2 in r.leaves.items() if any(x is t for x in walk(r.body))}
            rep.check((sym, "uses2", len(rows)), ms == {0, 1}, "%s: the pairing result does not use both columns" % who)
        for v, r, c in br:
            for v2, r2, c2 in pr:
                if all(any(d2.get(k, b) != b for k, b in d.items()) for d in c for d2 in c2): continue
                a, b = q.items(function(q, W, r)), q.items(function(q, W, r2))
                seenp.append((v, v2)); rep.count("function_pairs")
                same, msg = agree(a, b, q.recs)
                if same is None: rep.undecide(sym, "broadcast and pairing functions: " + msg); continue
                rep.check((sym, 'function', len(seenp)), same, "%s: comparing with a single value and comparing row by row differ: %s" % (who, msg))

def agree(a, b, recs):
    """whether two outcome tables agree wherever their conditions can hold together"""
    n, bad = 0, None
    for c, v in a:
        for d, w in b:
            if any(d.get(k, x) != x for k, x in c.items()): continue
            n += 1
            how, hs = judge(v, w, recs, small=120)
            if how == "differs": return False, "%s (in %s)" % (holestr(hs, 1), show(v, 5)[:200])
            if how == "unclear": bad = "cannot compare %s with %s" % (show(v, 7)[:300], show(w, 7)[:300])
    return (None, bad) if bad else (True, "") if n else (None, "no common case")
