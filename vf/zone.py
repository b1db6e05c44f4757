"""Differences between sizes and positions, path by path (a zone domain over the terms of msym).

Sizes of matrices, slices and iterators are traced back to the sizes of the arguments; positions handed out by a loop
over a range or an enumeration are bounded by it; tests on the path add what they say."""
from __future__ import annotations
import re
from .msym import mk, walk, show

KEEP = {"get_mut_unchecked", "get_mut", "write", "index_mut", "copy_from", "fill", "set", "iter_mut", "swap", "sort", "sort_unstable", "sort_by", "sort_unstable_by", "reverse", "as_mut", "col_mut", "row_mut", "next", "next_back", "as_slice_mut"}
SAMELEN = {"iter", "into_iter", "iter_mut", "copied", "cloned", "map", "enumerate", "rev", "inspect", "collect", "to_vec", "par_iter", "into_par_iter", "as_slice", "to_owned", "clone"}
ZERO = None

def last(t): return t.a[0].split("::")[-1] if t.k in ("call", "mut") else ""

def base_of(m):
    """what an in-place effect changed"""
    i = m.a[2] if isinstance(m.a[2], int) else m.a[2][0]
    xs = m.a[3:]
    return xs[i] if i < len(xs) else None

def is_range(it): return it.k == "struct" and (str(it.a[0]).endswith("::Range") or str(it.a[0]) == "Range") and len(it.a) == 3

class Zone:
    def __init__(self, paths, pre=()):
        self.paths, self.pre = paths, pre
        self.inits = {}
        for p in paths:
            for l in p.loops:
                for v, x in l.a[1]: self.inits[(l, v)] = x
        self.trans = {}
        for p in paths:
            if p.outcome == "back":
                for v, x in p.trans.items(): self.trans.setdefault((p.loop, v), set()).add(x)
        self.memo = {}
    # ---- where a changed value started
    def origin(self, t, d=0):
        """the value whose size t still has"""
        while d < 40:
            d += 1
            if t.k == "mut" and last(t) in KEEP:
                b = base_of(t)
                if b is None: return t
                t = b
            elif t.k == "lv" and (t.a[0], t.a[1]) in self.inits:
                if not self.steady(t): return t
                t = self.inits[(t.a[0], t.a[1])]
            elif t.k in ("ref", "deref") and hasattr(t.a[-1], "k"): t = t.a[-1]
            else: return t
        return t
    def steady(self, lv):
        k = (lv.a[0], lv.a[1])
        if k in self.memo: return self.memo[k]
        self.memo[k] = True
        ok = True
        for x in self.trans.get(k, ()):
            for _ in range(40):
                if x.k == "mut" and last(x) in KEEP and base_of(x) is not None: x = base_of(x)
                elif x.k == "lv" and x is not lv and (x.a[0], x.a[1]) in self.inits and self.steady(x): x = self.inits[(x.a[0], x.a[1])]
                else: break
            if x is not lv: ok = False
        self.memo[k] = ok
        return ok
    # ---- sizes
    def dim(self, x, ax):
        x = self.origin(x)
        l = last(x) if x.k == "call" else ""
        if l in ("transpose", "t", "adjoint") and len(x.a) == 3: return self.dim(x.a[2], 1 - ax)
        if x.k == "bin" and x.a[0] == "MatMul": return self.dim(x.a[1 + ax], ax)
        if x.k == "bin" and x.a[0] in ("Add", "Sub"): return self.dim(x.a[1], ax)
        if l in ("zeros", "full", "from_fn", "ones") and len(x.a) >= 4 and re.search(r"\bMat\b|::Mat::", x.a[0]): return self.lin(x.a[2 + ax])
        if l in ("as_ref", "as_mut", "cloned", "to_owned", "clone") and len(x.a) == 3: return self.dim(x.a[2], ax)
        if l in ("inverse", "thin_svd", "svd") and len(x.a) == 3: return self.dim(x.a[2], ax)
        return (("rows", "cols")[ax], x), 0
    def length(self, x):
        x = self.origin(x)
        if x.k == "array": return ZERO, len(x.a)
        l = last(x) if x.k == "call" else ""
        if l in SAMELEN and len(x.a) >= 3: return self.length(x.a[2])
        if x.k == "struct" and str(x.a[0]).endswith("Range") and len(x.a) == 3:
            a, b = self.lin(x.a[1]), self.lin(x.a[2])
            if a == (ZERO, 0): return b
        if l in ("from_elem",) and len(x.a) >= 4: return self.lin(x.a[3])
        return ("len", x), 0
    def lin(self, t):
        if t.k == "int": return ZERO, t.a[0]
        if t.k == "bin" and t.a[0] in ("Add", "Sub"):
            a, b = self.lin(t.a[1]), self.lin(t.a[2])
            if b[0] is ZERO: return a[0], a[1] + (b[1] if t.a[0] == "Add" else -b[1])
            if a[0] is ZERO and t.a[0] == "Add": return b[0], a[1] + b[1]
        if t.k == "call":
            l = last(t)
            if l == "nrows" and len(t.a) == 3: return self.dim(t.a[2], 0)
            if l == "ncols" and len(t.a) == 3: return self.dim(t.a[2], 1)
            if l == "len" and len(t.a) == 3: return self.length(t.a[2])
        if t.k == "len": return self.length(t.a[0])
        if t.k == "cast" and hasattr(t.a[-1], "k") and t.a[-1].k in ("int", "len", "call", "lv", "pay"): return ("t", t), 0
        return ("t", t), 0
    # ---- what is known on a path
    def facts(self, conds, terms, flags=None):
        """[(a, b, k)]: a - b <= k over atoms"""
        out, said, flags = [], set(), dict(flags or {})
        def le(x, y, k=0):      # x <= y + k
            out.append((x[0], y[0], y[1] + k - x[1]))
        known = {c: b for c, b in conds}
        known.update(flags)
        for c, b in conds:
            while c.k == "not": c, b = c.a[0], not b
            if c.k == "bin" and c.a[0] in ("Lt", "Le", "Eq") and b in (True, False):
                x, y = self.lin(c.a[1]), self.lin(c.a[2])
                if c.a[0] == "Eq":
                    if b: le(x, y); le(y, x)
                    elif y == (ZERO, 0): le((ZERO, 1), x)
                    elif x == (ZERO, 0): le((ZERO, 1), y)
                elif c.a[0] == "Lt": le(x, y, -1) if b else le(y, x)
                else: le(x, y) if b else le(y, x, -1)
        todo = list(terms) + [c for c, _ in conds]
        seen = set()
        while todo:
            t = todo.pop()
            if t in seen: continue
            seen.add(t)
            for s in walk(t):
                if s in said: continue
                said.add(s)
                if s.k == "lv" and (s.a[0], s.a[1]) in self.inits: todo.append(self.inits[(s.a[0], s.a[1])])
                if s.k == "pay" and s.a[0].k == "call" and last(s.a[0]) in ("next", "next_back"):
                    it = self.origin(s.a[0].a[2])
                    self.element(s, it, le)
                if s.k == "call" and last(s) == "abs_diff" and len(s.a) == 4:
                    x, y = s.a[2], s.a[3]
                    f = y.a[-1] if y.k == "cast" else None
                    if y.k == "int":
                        pass
                    elif f is not None:
                        me, xx = self.lin(s), self.lin(x)
                        if known.get(f) is False: le(me, xx); le(xx, me)
                        elif known.get(f) is True and self.pre: le(me, xx, -1); le(xx, me, 1); le((ZERO, 1), xx)
                        elif known.get(f) is not True and self.pre: le(me, xx)
                if s.k == "call" and last(s) == "saturating_sub" and len(s.a) == 4: le(self.lin(s), self.lin(s.a[2]))
                if s.k == "call" and last(s) == "min" and len(s.a) == 4: le(self.lin(s), self.lin(s.a[2])); le(self.lin(s), self.lin(s.a[3]))
        return out
    def element(self, s, it, le):
        """bounds of what an iterator hands out"""
        me = self.lin(s)
        it = self.peel(it, ("skip", "take", "step_by", "filter"))
        if is_range(it):
            a, b = self.lin(it.a[1]), self.lin(it.a[2])
            le(a, me); le(me, b, -1)
        elif it.k == "call" and "RangeInclusive" in it.a[0]:
            a, b = self.lin(it.a[2]), self.lin(it.a[3])
            le(a, me); le(me, b)
        elif it.k == "call" and last(it) == "enumerate":
            for f in (mk("fld", s, 0), mk("field", s, 0)):
                i = self.lin(f)
                le(i, self.length(it.a[2]), -1)
    def peel(self, it, more=()):
        for _ in range(8):
            if it.k == "call" and last(it) in ("rev", "into_iter", "iter", "copied", "cloned") + more and len(it.a) >= 3: it = self.origin(it.a[2])
            else: break
        return it
    def reach(self, i):
        """the largest value a position takes in its loop (when the loop runs at all); None when it is not known to be reached"""
        if i.k == "bin" and i.a[0] in ("Add", "Sub"):
            for x, y in ((i.a[1], i.a[2]), (i.a[2], i.a[1])):
                if y.k == "int" and (i.a[0] == "Add" or y is i.a[2]):
                    r = self.reach(x)
                    return (r[0], r[1] + (y.a[0] if i.a[0] == "Add" else -y.a[0])) if r else None
        fld = i.k == "fld" and i.a[1] == 0
        e = i.a[0] if fld else i
        if e.k != "pay" or e.a[0].k != "call" or last(e.a[0]) not in ("next", "next_back"): return None
        it = self.peel(self.origin(e.a[0].a[2]))
        if fld:
            if it.k == "call" and last(it) == "enumerate":
                b = self.length(it.a[2]); return b[0], b[1] - 1
            return None
        if is_range(it):
            b = self.lin(it.a[2]); return b[0], b[1] - 1
        if it.k == "call" and "RangeInclusive" in it.a[0]: return self.lin(it.a[3])
        return None
    def flags(self, terms):
        """boolean options the sizes depend on"""
        out = []
        for t in terms:
            for s in walk(t):
                if s.k == "call" and last(s) == "abs_diff" and len(s.a) == 4 and s.a[3].k == "cast" and s.a[3].a[-1] not in out: out.append(s.a[3].a[-1])
                if s.k == "lv" and (s.a[0], s.a[1]) in self.inits: out += [f for f in self.flags([self.inits[(s.a[0], s.a[1])]]) if f not in out]
        return out

def entails(facts, x, y, k=0):
    """x <= y + k ?"""
    return dist(facts, x[0], y[0]) + x[1] - y[1] <= k

def dist(facts, a, b):
    """least known c with a - b <= c"""
    if a == b: return 0
    best = {a: 0}
    nodes = {u for u, _, _ in facts} | {v for _, v, _ in facts} | {a, b}
    edges = list(facts) + [(None, n, 0) for n in nodes if n is not None]      # sizes and positions are not negative: 0 - n <= 0
    for _ in range(len(nodes) + 1):
        ch = False
        for u, v, c in edges:
            if u in best and best[u] + c < best.get(v, float("inf")): best[v] = best[u] + c; ch = True
        if not ch: break
    return best.get(b, float("inf"))
