"""Control flow facts over MIR functions: dominance, control dependence, guarding conditions, loops."""
from __future__ import annotations
from functools import lru_cache

class Cfg:
    def __init__(self, fn):
        self.fn = fn
        self.entry = 0 if 0 in fn.blocks else min(fn.blocks)
        self.succ = {b.id: [t for t in dict.fromkeys(b.term.targets) if t in fn.blocks and not fn.blocks[t].cleanup] for b in fn.blocks.values() if not b.cleanup}
        self.pred = {b: [] for b in self.succ}
        for b, ts in self.succ.items():
            for t in ts: self.pred[t].append(b)
        self.rpo = self._rpo()
        self.reachable = set(self.rpo)
        self._dom = self._pdom = self._cd = None
    def _rpo(self):
        seen, out, st = set(), [], [(self.entry, iter(self.succ.get(self.entry, ())))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t); st.append((t, iter(self.succ[t]))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    def reach(self, start, avoid_edges=(), avoid=()):
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid: continue
            seen.add(b)
            for t in self.succ[b]:
                if (b, t) not in avoid_edges: st.append(t)
        return seen
    @property
    def dom(self):
        """block -> set of its dominators"""
        if self._dom is None:
            allb = set(self.rpo)
            d = {b: set(allb) for b in self.rpo}
            d[self.entry] = {self.entry}
            ch = True
            while ch:
                ch = False
                for b in self.rpo:
                    if b == self.entry: continue
                    ps = [p for p in self.pred[b] if p in self.reachable]
                    n = set.intersection(*(d[p] for p in ps)) | {b} if ps else {b}
                    if n != d[b]: d[b] = n; ch = True
            self._dom = d
        return self._dom
    @property
    def pdom(self):
        """block -> set of blocks on every path from it to a return"""
        if self._pdom is None:
            rets = [b for b in self.rpo if self.fn.blocks[b].term.kind == "return"]
            allb = set(self.rpo)
            d = {b: set(allb) for b in self.rpo}
            for r in rets: d[r] = {r}
            ch = True
            while ch:
                ch = False
                for b in reversed(self.rpo):
                    if b in rets: continue
                    ss = [s for s in self.succ[b] if s in self.reachable]
                    n = set.intersection(*(d[s] for s in ss)) | {b} if ss else set(allb)
                    if n != d[b]: d[b] = n; ch = True
            self._pdom = d
        return self._pdom
    @property
    def control_deps(self):
        """block -> {(switch block, successor)} it is directly control dependent on"""
        if self._cd is None:
            cd = {b: set() for b in self.rpo}
            pd = self.pdom
            for a in self.rpo:
                ss = [s for s in self.succ[a] if s in self.reachable]
                if len(ss) < 2: continue
                for s in ss:
                    for b in pd[s] if len(pd[s]) < len(self.rpo) or self.fn.blocks[s].term.kind == "return" else ():
                        if b == a or b not in pd[a]: cd[b].add((a, s))
            self._cd = cd
        return self._cd
    def guards(self, block):
        """edges (switch block, successor) every path from the entry to `block` takes"""
        out = []
        for s in self.dom.get(block, ()):
            if s == block: continue
            ss = [x for x in self.succ[s] if x in self.reachable]
            if len(ss) < 2: continue
            for t in ss:
                # reachable from entry without edge (s,t)?
                if block not in self.reach(self.entry, avoid_edges={(s, t)}): out.append((s, t))
        return out
    def back_edges(self):
        return [(b, t) for b in self.rpo for t in self.succ[b] if t in self.dom[b]]
    def loops(self):
        """header -> set of blocks of the natural loop (bodies of one header merged)"""
        out = {}
        for b, h in self.back_edges():
            body = out.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x)
                st += [p for p in self.pred[x] if p in self.reachable]
        return out

_cache = {}
def of(fn):
    c = _cache.get(id(fn))
    if c is None or c.fn is not fn: c = _cache[id(fn)] = Cfg(fn)
    return c

def edge_value(fn, s, t):
    """values of the switch at block s that lead to successor t (None = otherwise)"""
    tm = fn.blocks[s].term
    return [v for v, x in zip(tm.values, tm.targets) if x == t] if tm.kind == "switch" else []
