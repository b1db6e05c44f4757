"""Two versions of a function walked through side by side.

The control-flow graphs of the two bodies are followed in lockstep, variables matched as they are defined.  Where the
bodies agree everywhere but at one place, and what stands there is another constant, another operator on the same
operands, another input, field or variable of the same type, another function of the same family, or a step of the
computation left out, the two versions compute different things: nothing else in the body can make up for it.
Anything else (moved, split, merged or rewritten code) is left open."""
from __future__ import annotations
import re
from .mir import Place, Const
from . import mir
from .mterm import last_of
from .diff import FAMILIES, PEEL, known

BLINDCALL = re.compile(r"(with_capacity|reserve\w*|ListPrimitiveChunkedBuilder.*::new|ChunkedBuilder.*::new|get_list_builder|par_chunks|with_min_len|with_max_len|num_threads|split_offsets)")
_clo = re.compile(r"\{closure@[^}]*\}|\{closure#\d+\}")
_life = re.compile(r"'\w+\s*|for<[^>]*>\s*")
ARITH = {"Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor"}
MORE = FAMILIES + [{"eq", "ne"}, {"lt", "le"}, {"gt", "ge"}, {"add", "sub", "mul", "div", "rem"}, {"add_assign", "sub_assign", "mul_assign", "div_assign"}, {"and", "or"}, {"bitand", "bitor", "bitxor"}]
CMPS = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}
UNSURE = "unsure"

class Body:
    """a function without checks, storage and values nobody reads"""
    def __init__(self, f):
        self.f = f
        self.blocks = {}
        st = {b.id: list(b.stmts) for b in f.blocks.values() if not b.cleanup}
        self.st, self.t = st, {i: f.blocks[i].term for i in st}
        while True:
            used = {}
            def use(o):
                if isinstance(o, Place):
                    used[o.local] = used.get(o.local, 0) + 1
                    for p in o.proj:
                        if p[0] == "idx": used[p[1]] = used.get(p[1], 0) + 1
            for i, ss in st.items():
                for s in ss:
                    for o in s.rv.ops: use(o)
                    if s.place.proj: use(s.place)
                t = self.t[i]
                if t.kind == "switch": use(t.op)
                if t.kind == "call":
                    if t.fop is not None: use(t.fop)
                    for o in t.args: use(o)
                    if t.dest is not None and t.dest.proj: use(t.dest)
            n = 0
            for i, ss in st.items():
                keep = [s for s in ss if s.place.proj or s.place.local == 0 or used.get(s.place.local)]
                n += len(ss) - len(keep); st[i] = keep
            if not n: break
        self.used = used
        # only ever handed to a capacity: not part of the result
        self.blind = set()
        feeds = {}
        for i, ss in st.items():
            for s in ss:
                for o in s.rv.ops:
                    if isinstance(o, Place): feeds.setdefault(o.local, []).append(s.place.local if not s.place.proj else None)
            t = self.t[i]
            if t.kind == "call":
                b = bool(t.callee and BLINDCALL.search(t.callee))
                for k, o in enumerate(t.args):
                    if isinstance(o, Place): feeds.setdefault(o.local, []).append("blind" if b and (k > 0 or "capacity" in t.callee or "reserve" in t.callee) else (t.dest.local if t.callee and last_of(t.callee) in ("len", "max", "min") and t.dest is not None and not t.dest.proj else None))
            elif t.kind == "switch" and isinstance(t.op, Place): feeds.setdefault(t.op.local, []).append(None)
        for _ in range(12):
            for l, fs in feeds.items():
                if all(x == "blind" or x in self.blind for x in fs): self.blind.add(l)
    def skip(self, b):
        """through blocks that do nothing"""
        n = 0
        while n < 200:
            n += 1
            t = self.t.get(b)
            if t is None: return b
            if not self.st[b] and t.kind in ("goto", "drop", "assert") and len(t.targets) == 1 and t.targets[0] in self.t: b = t.targets[0]
            else: return b
        return b
    def at(self, b, i):
        """('s', stmt) | ('t', term), position after it for straight code"""
        while True:
            ss = self.st[b]
            if i < len(ss): return "s", ss[i], (b, i + 1)
            t = self.t[b]
            if t.kind in ("goto", "drop", "assert") and len(t.targets) == 1 and t.targets[0] in self.t:
                b, i = t.targets[0], 0
                if t.targets[0] == b and not self.st[b] and self.t[b].kind == "goto" and self.t[b].targets == (b,): return "t", t, None
                if (b, i) == (t.targets[0], 0): 
                    # a block reached by a plain jump may be joined from elsewhere: the caller checks the pairing
                    return "j", b, (b, 0)
            return "t", t, ((t.targets[0], 0) if t.kind == "call" and t.targets else None)

class Fail(Exception): pass

def ctext(x): return _life.sub("", _clo.sub("{c}", re.sub(r"_\d+_of_\d+", "", x)))

class Walk:
    def __init__(self, fa, fb, ca=None, cb=None):
        self.A, self.B = Body(fa), Body(fb)
        self.fa, self.fb = fa, fb
        self.ca, self.cb = ca or {}, cb or {}      # constants of the two programs, by how they are written
        self.steps = 0
    def run(self):
        """list of edits, or None when the bodies cannot be followed together"""
        if len(self.fa.args) != len(self.fb.args): return None
        m = {a[0]: b[0] for a, b in zip(self.fa.args, self.fb.args)}; m[0] = 0
        try: return self.go([(0, 0, 0, 0)], {}, m, [], 2)
        except Fail: return None
        except RecursionError: return None
    # state: worklist of (block a, i, block b, j); pairs of blocks already matched; variable map; edits; budget
    def go(self, work, pairs, m, edits, budget):
        work = list(work)
        while work:
            a, i, b, j = work.pop()
            while True:
                self.steps += 1
                if self.steps > 60000: raise Fail()
                ka, xa, na = self.A.at(a, i); kb, xb, nb = self.B.at(b, j)
                if ka == "j" or kb == "j":
                    if ka == "j": a, i = na
                    if kb == "j": b, j = nb
                    if i == 0 and j == 0:
                        a2, b2 = self.A.skip(a), self.B.skip(b)
                        if pairs.get(a2) == b2: break
                        if a2 in pairs and pairs[a2] != b2: raise Fail()
                        if self.A.at(a2, 0)[0] != "j" and self.B.at(b2, 0)[0] != "j": pairs[a2] = b2
                        a, b = a2, b2
                    continue
                # a choice: try the plain match, then the repairs
                try:
                    m2, e2 = dict(m), []
                    nxt = self.match(ka, xa, kb, xb, m2, e2, a, b)
                    if len(edits) + len(e2) > 3: raise Fail()
                except Fail:
                    if budget <= 0: raise
                    r = self.repair(work, pairs, m, edits, budget, (a, i), (b, j))
                    if r is None: raise
                    return r
                if e2 and budget > 0 and any(x[0] in ("structure",) for x in e2): raise Fail()
                m, edits = m2, edits + e2
                if nxt is None: break
                if nxt == "next":
                    if na is None or nb is None:
                        if na is not nb: raise Fail()
                        break
                    (a, i), (b, j) = na, nb
                    if i == 0 or j == 0:
                        if i == 0 and j == 0:
                            a2, b2 = self.A.skip(a), self.B.skip(b)
                            if pairs.get(a2) == b2: break
                            if a2 in pairs: raise Fail()
                            pairs[a2] = b2; a, b = a2, b2
                    continue
                if budget > 0 and ka == "t" and xa.kind == "switch" and xa.values == (0, None) and not e2:
                    try: return self.go(work + [(x, 0, y, 0) for x, y in self.fresh(nxt, pairs)], self.fresh_pairs(nxt, pairs), m, edits, budget)
                    except Fail:
                        r = self.andor(work, pairs, m, edits, (a, i), (b, j))
                        if r is None: raise
                        return r
                # several successors
                for x, y in nxt:
                    x, y = self.A.skip(x), self.B.skip(y)
                    if x in pairs:
                        if pairs[x] != y: 
                            if not self.twin(x, y, m): raise Fail()
                        continue
                    pairs = dict(pairs); pairs[x] = y
                    work.append((x, 0, y, 0))
                break
        self.final = pairs
        return edits
    def twin(self, x, y, m): return False
    def fresh_pairs(self, nxt, pairs):
        p = dict(pairs)
        for x, y in nxt:
            x, y = self.A.skip(x), self.B.skip(y)
            if x in p and p[x] != y: raise Fail()
            p[x] = y
        return p
    def fresh(self, nxt, pairs):
        out = []
        for x, y in nxt:
            x, y = self.A.skip(x), self.B.skip(y)
            if x not in pairs and (x, y) not in out: out.append((x, y))
        return out
    def andor(self, work, pairs, m, edits, pa, pb):
        """p && rest against p || rest"""
        xa, xb = self.A.at(*pa)[1], self.B.at(*pb)[1]
        for s, t in (("and", "or"), ("or", "and")):
            i, j = (1, 0) if s == "and" else (0, 1)
            try:
                r = self.go(list(work) + [(self.A.skip(xa.targets[i]), 0, self.B.skip(xb.targets[j]), 0)], dict(pairs), dict(m), edits + [("andor", s, t, None)], 0)
                x, y = self.A.skip(xa.targets[1 - i]), self.B.skip(xb.targets[1 - j])
                # the ways out that were skipped are where the rest leads to as well
                if x in self.final and y in self.final.values() and self.final[x] != y: return r
            except Fail: pass
        return None
    def repair(self, work, pairs, m, edits, budget, pa, pb):
        """leave out up to a few steps on one side"""
        best = None
        for side in ("A", "B"):
            X = self.A if side == "A" else self.B
            pos, sl = pa if side == "A" else pb, []
            for n in range(14):
                k, x, nx = X.at(*pos)
                if k == "j": pos = nx; continue
                sl.append((k, x))
                if nx is None:
                    if k == "t" and x.kind == "switch":
                        for s in x.targets:
                            try:
                                st = list(work) + [((s, 0) + tuple(pb)) if side == "A" else (tuple(pa) + (s, 0))]
                                return self.go(st, dict(pairs), dict(m), edits + [("guard-" + side, tuple(sl), None, x)], 0)
                            except Fail: pass
                    break
                pos = nx
                try:
                    m2 = dict(m)
                    defs = {}
                    for kk, y in sl:
                        p = y.place if kk == "s" else y.dest
                        if p is not None and not p.proj: defs[p.local] = True
                    e = [("drop-" + side, tuple(sl), None, None)]
                    st = list(work) + [(tuple(pos) + tuple(pb)) if side == "A" else (tuple(pa) + tuple(pos))]
                    if side == "A":
                        for l in defs: m2.setdefault(l, "free") if m2.get(l) is None else None
                    else: m2["freeB"] = frozenset(m2.get("freeB", frozenset()) | set(defs))
                    return self.go(st, dict(pairs), m2, edits + e, 0)
                except Fail: continue
        return None
    # ------------------------------------------------------------ single steps
    def match(self, ka, xa, kb, xb, m, e, a, b):
        if ka != kb: raise Fail()
        if ka == "s":
            self.rv(xa, xb, m, e)
            self.define(xa.place, xb.place, m, e)
            return "next"
        if xa.kind != xb.kind: raise Fail()
        if xa.kind in ("return", "unreachable", "resume", "other", "goto", "drop", "assert"): return None
        if xa.kind == "switch":
            self.operand(xa.op, xb.op, m, e)
            if xa.values != xb.values: raise Fail()
            if xa.values == (0, None):
                s, t = self.shape(self.A, xa), self.shape(self.B, xb)
                if {s, t} == {"and", "or"}:
                    e.append(("andor", s, t, None))
                    return [(xa.targets[1 if s == "and" else 0], xb.targets[1 if t == "and" else 0])]
            return list(zip(xa.targets, xb.targets))
        if xa.kind == "call":
            if (xa.fop is None) != (xb.fop is None): raise Fail()
            if xa.fop is not None: self.operand(xa.fop, xb.fop, m, e)
            else: self.callee(xa, xb, e)
            if len(xa.args) != len(xb.args): raise Fail()
            e2 = []
            for x, y in zip(xa.args, xb.args): self.operand(x, y, m, e2)
            if e2 and not (xa.callee and BLINDCALL.search(xa.callee)): e += e2
            self.define(xa.dest, xb.dest, m, e)
            if bool(xa.targets) != bool(xb.targets): raise Fail()
            return "next" if xa.targets else None
        raise Fail()
    def shape(self, X, t):
        """a test that is the first half of `p && q` or `p || q`"""
        f, g = X.skip(t.targets[0]), X.skip(t.targets[1])
        def second(b):
            for _ in range(30):
                u = X.t.get(b)
                if u is None: return None
                if u.kind == "switch": return u if u.values == (0, None) else None
                if len(u.targets) != 1: return None
                b = u.targets[0]
            return None
        u, v = second(g), second(f)
        a = u is not None and X.skip(u.targets[0]) == f
        o = v is not None and X.skip(v.targets[1]) == g
        return "and" if a and not o else "or" if o and not a else None
    def callee(self, xa, xb, e):
        s, t = ctext(xa.callee), ctext(xb.callee)
        if s == t: return
        f, g = last_of(xa.callee), last_of(xb.callee)
        if f == g and len(xa.args) == len(xb.args):
            # the same function at another type
            if mir.strip_generics(s).split("::")[-2:] == mir.strip_generics(t).split("::")[-2:]: return
            raise Fail()
        if any(f in z and g in z for z in MORE) or re.sub(r"\d", "", f) == re.sub(r"\d", "", g): e.append(("call", f, g, None)); return
        if self.own(xa.callee) and self.own(xb.callee): e.append(("call", f, g, None)); return
        raise Fail()
    def own(self, c): return bool(re.match(r"^<?(impl )?&?'?(mut )?(crate|num_ext|str_ext|stats|stats_utils|linalg|arkadia|utils|pymodels)::", c))
    def define(self, p, q, m, e):
        if p is None or q is None: raise Fail()
        if not p.proj and not q.proj:
            if ctext(self.fa.locals.get(p.local, "")) != ctext(self.fb.locals.get(q.local, "")) and p.local and self.erasable(p, q): raise Fail()
            if m.get(p.local) is None:
                if q.local in [v for k, v in m.items() if k != "freeB"]: raise Fail()
                m[p.local] = q.local
            elif m[p.local] != q.local: 
                if m[p.local] == "free": m[p.local] = q.local; return
                self.other(p, q, m, e)
            return
        self.place(p, q, m, e)
    def erasable(self, p, q): return True
    def place(self, p, q, m, e):
        if len(p.proj) != len(q.proj): raise Fail()
        x = m.get(p.local)
        if x == "free": m[p.local] = q.local
        elif x != q.local:
            if q.local in m.get("freeB", ()): m["freeB"] = m["freeB"]; m[("b", q.local)] = p.local; 
            elif x is None: raise Fail()
            else: self.other(p, q, m, e)
        for s, t in zip(p.proj, q.proj):
            if s == t: continue
            if s[0] != t[0]: raise Fail()
            if s[0] == "f": e.append(("field", s[1], t[1], p))
            elif s[0] == "idx":
                y = m.get(s[1])
                if y == "free": m[s[1]] = t[1]
                elif y != t[1]: self.other(Place(s[1]), Place(t[1]), m, e)
            elif s[0] == "cidx": e.append(("index", s[1:], t[1:], p))
            else: raise Fail()
    def other(self, p, q, m, e):
        """another variable of the same type"""
        inv = {v: k for k, v in m.items() if isinstance(k, int)}
        o = inv.get(q.local)
        if o is None or ctext(self.fa.locals.get(p.local, "")) != ctext(self.fa.locals.get(o, "")): raise Fail()
        named = {int(x) for l in self.fa.debug.values() for y in l for x in re.findall(r"^_(\d+)$", y.strip())} | {a[0] for a in self.fa.args}
        if p.local not in named or o not in named: raise Fail()
        if self.alike(p.local, o): raise Fail()
        e.append(("var", p.local, o, None))
    def alike(self, x, y):
        """two variables that may well be equal: one copied from the other, or both lengths"""
        def of(l):
            out = []
            for ss in self.A.st.values():
                out += [s.rv for s in ss if s.place.local == l and not s.place.proj]
            ts = [t for t in self.A.t.values() if t.kind == "call" and t.dest is not None and t.dest.local == l and not t.dest.proj]
            return out, ts
        (ra, ta), (rb, tb) = of(x), of(y)
        for rs, z in ((ra, y), (rb, x)):
            if any(r.kind in ("use", "ref", "cast") and r.ops and isinstance(r.ops[0], Place) and r.ops[0].local == z for r in rs): return True
        size = lambda ts: bool(ts) and all(t.callee and last_of(t.callee) in ("len", "height", "nrows", "ncols", "width", "dim", "shape") for t in ts)
        return size(ta) and size(tb)
    def operand(self, x, y, m, e):
        if isinstance(x, Place) and isinstance(y, Place): return self.place(x, y, m, e)
        if isinstance(x, Const) and isinstance(y, Const):
            if x.text == y.text: return
            for kind in ("int", "float", "bool", "str"):
                u, v = getattr(x, kind), getattr(y, kind)
                if u is not None and v is not None:
                    if u != v: e.append(("const", u, v, kind))
                    return
            s, t = ctext(x.text), ctext(y.text)
            if s == t: return
            if "promoted[" in s and "promoted[" in t:
                f, g = self.ca.get(x.text), self.cb.get(y.text)
                if f is None or g is None: return
                es = Walk(f, g, self.ca, self.cb).run()
                if es is None: raise Fail()
                e += es
                return
            if "{c}" in s and "{c}" in t: return
            f, g = last_of(x.text), last_of(y.text)
            if f == g: return
            if any(f in z and g in z for z in MORE) or self.own(x.text) and self.own(y.text) or re.search(r"(NAN|INFINITY|MAX|MIN|EPSILON)$", s) and re.search(r"(NAN|INFINITY|MAX|MIN|EPSILON)$", t): e.append(("const", s, t, "path")); return
            u, v = x.int if x.int is not None else x.float, y.int if y.int is not None else y.float
            raise Fail()
        raise Fail()
    def rv(self, sa, sb, m, e):
        x, y = sa.rv, sb.rv
        dead = not sa.place.proj and sa.place.local in self.A.blind
        e0 = e
        if dead: e = []
        if x.kind == "bin" and y.kind == "bin":
            def norm(r): return ({"Gt": "Lt", "Ge": "Le"}[r.data], r.ops[::-1]) if r.data in ("Gt", "Ge") else (r.data, r.ops)
            (o, p), (q, r) = norm(x), norm(y)
            o, q = o.replace("WithOverflow", "").replace("Unchecked", ""), q.replace("WithOverflow", "").replace("Unchecked", "")
            if o != q:
                if {o, q} <= {"Lt", "Le"} or {o, q} <= {"Eq", "Ne"} or {o, q} <= ARITH: pass
                else: raise Fail()
                m1, e1 = dict(m), []
                try:
                    for u, v in zip(p, r): self.operand(u, v, m1, e1)
                    if e1: raise Fail()
                    m.clear(); m.update(m1); e.append(("op", o, q, None)); return
                except Fail:
                    # turned round: a < b against b < a and the like
                    m1, e1 = dict(m), []
                    for u, v in zip(p, r[::-1]): self.operand(u, v, m1, e1)
                    if e1 or not {o, q} <= {"Lt", "Le"}: raise Fail()
                    m.clear(); m.update(m1); e.append(("op", o, q + " turned", None)); return
            try:
                m1, e1 = dict(m), []
                for u, v in zip(p, r): self.operand(u, v, m1, e1)
            except Fail: e1 = None
            if e1 is None or e1 and o in ("Add", "Mul", "Eq", "Ne", "BitAnd", "BitOr", "BitXor", "Lt", "Le", "Sub"):
                try:
                    m2, e2 = dict(m), []
                    for u, v in zip(p, r[::-1]): self.operand(u, v, m2, e2)
                    if not e2:
                        if o in ("Lt", "Le", "Sub", "Div"): e2 = [("swap", o, None, None)]
                        m1, e1 = m2, e2
                except Fail: pass
            if e1 is None: raise Fail()
            m.clear(); m.update(m1); e += e1
            return
        if x.kind == "use" and y.kind == "use":
            self.operand(x.ops[0], y.ops[0], m, e); return
        if x.kind != y.kind: raise Fail()
        if x.kind == "cast":
            if ctext(str(x.data[0])) != ctext(str(y.data[0])):
                self.operand(x.ops[0], y.ops[0], m, e); e.append(("cast", x.data[0], y.data[0], None)); return
        elif x.kind == "un":
            if x.data != y.data: raise Fail()
        elif x.kind == "agg":
            if x.data[0] != y.data[0]: raise Fail()
            if x.data[0] in ("struct", "variant") and ctext(x.data[1]) != ctext(y.data[1]):
                if len(x.ops) == len(y.ops) and self.owner(x.data[1]) == self.owner(y.data[1]) and last_of(x.data[1]) != last_of(y.data[1]) and known(last_of(x.data[1])) and known(last_of(y.data[1])):
                    for u, v in zip(x.ops, y.ops): self.operand(u, v, m, e)
                    e.append(("variant", last_of(x.data[1]), last_of(y.data[1]), None)); return
                raise Fail()
            if x.data[0] == "struct" and x.data[2] != y.data[2]: raise Fail()
        elif x.kind in ("ref", "addr"):
            if x.data != y.data: raise Fail()
        elif x.kind == "repeat":
            if str(x.data) != str(y.data): e.append(("const", x.data, y.data, "repeat"))
        elif x.kind == "other":
            if ctext(str(x.data)) != ctext(str(y.data)): raise Fail()
        if len(x.ops) != len(y.ops): raise Fail()
        for u, v in zip(x.ops, y.ops): self.operand(u, v, m, e)
    def owner(self, t): return mir.strip_generics(ctext(t)).rsplit("::", 1)[0]

def effect(w, ed):
    """what an edit means: a reason, or None when it may well be nothing"""
    k = ed[0]
    if k in ("op", "field", "index", "var", "call", "swap", "cast", "variant", "andor"):
        if k == "cast": return None
        if k == "op" and {ed[1], ed[2].split()[0]} <= {"Lt", "Le"}: return "%s instead of %s" % (ed[2], ed[1])
        return "%s %s instead of %s" % (k, ed[2], ed[1])
    if k == "const":
        if ed[3] == "str": return None
        return "%s instead of %s" % (ed[2], ed[1])
    if k in ("drop-A", "drop-B"):
        side = w.A if k == "drop-A" else w.B
        why = None
        for kk, y in ed[1]:
            if kk == "s":
                if y.place.proj and k == "drop-A": why = "an assignment is missing"
                elif y.rv.kind == "bin" and y.rv.data in ARITH | {"AddWithOverflow"}: why = "an arithmetic step is %s" % ("missing" if k == "drop-A" else "added")
                elif y.rv.kind == "un" and y.rv.data == "Neg": why = "a negation is %s" % ("missing" if k == "drop-A" else "added")
            else:
                l = last_of(y.callee) if y.callee else ""
                if l in PEEL - {"unique", "sort"}: why = "%s is %s" % (l, "missing" if k == "drop-A" else "added")
                elif k == "drop-A" and l in ("reverse", "sort", "sort_unstable", "sort_unstable_by", "sort_by", "truncate", "push", "extend", "clear", "swap", "dedup", "retain", "insert", "append_null", "append_value", "drop_nulls", "fill", "pop"): why = "%s is missing" % l
                elif l in ("clone", "into_iter", "iter", "deref", "as_ref", "len", "into", "borrow"): pass
                else: return None
        return why
    if k == "guard-A":
        t = ed[3]
        # the branch that went away ends in an error
        for s in t.targets:
            if ends_badly(w.A, s): return "a check is missing"
        return None
    return None

def ends_badly(X, b, n=0):
    """every way on from a block builds an Err or panics before it returns"""
    seen, st, some = set(), [b], False
    while st:
        b = st.pop()
        if b in seen or b not in X.t: continue
        seen.add(b)
        if len(seen) > 12: return False
        txt = " ".join(s.text for s in X.st[b])
        t = X.t[b]
        if re.search(r"Result::<.*>::Err\(|PolarsError::\w+\(|::Err\(", txt) or t.kind == "call" and not t.targets: some = True; continue
        if t.kind == "call" and t.callee and re.search(r"ErrString|PyErr|from_residual", t.callee): some = True; continue
        if t.kind == "return": return False
        st += [x for x in t.targets]
    return some

def verdict(fa, fb, ca=None, cb=None):
    """(reason, edits): a reason when the second body certainly does something else than the first"""
    w = Walk(fa, fb, ca, cb)
    es = w.run()
    if es is None: return None, None
    rs = [effect(w, x) for x in es]
    if not es: return None, es
    if all(rs) and (len(es) == 1 or len({(x[0], str(x[1]), str(x[2])) for x in es}) == 1): return rs[0], es
    return None, es
