"""Routines of the tree against the reference routines of spec/ref/native: the same results under the same conditions.

Both programs are brought to normal form over the same symbolic arguments.  Functions of the analysis-heavy modules
(plugs.SKIP) that exist in both programs with the same signature stay opaque and are compared on their own; everything
else is looked through, so a helper that was added, removed or renamed does not show."""
from __future__ import annotations
import os, re, sys
from . import mir, native
from .diff import compare, told
from . import lockstep
from .plugs import Plugs, OPAQUE, SKIP
from .msym import mk, show, walk
from .nf import TooBig

def sig(f): return (tuple(t for _, t in f.args), f.ret)

def named(prog):
    """functions, constants and statics by canonical name; several under one name are told apart by where they stand"""
    by = {}
    for f in prog.fns.values(): by.setdefault(f.canon, []).append(f)
    for n, f in prog.consts.items():
        if not f.canon: f.canon = mir.canon_header(n)
        by.setdefault(f.canon, []).append(f)
    out = {}
    for c, fs in by.items():
        if len(fs) == 1: fs[0].uname = c; out[c] = fs[0]; continue
        for i, f in enumerate(sorted(fs, key=lambda f: (f.kind, f.ret if "promoted" in c else "", tuple(t for _, t in f.args), [int(x) for x in re.findall(r"\d+", f.name)]))):
            f.uname = c if i == 0 else "%s#%d" % (c, i)
            out[f.uname] = f
    return out

class Pair:
    def __init__(self, nat, opaque=OPAQUE, max_paths=1500, closed=()):
        self.new = nat
        self.ref = native.Native(mir.load_reference())
        a, b = named(self.new.prog), named(self.ref.prog)
        self.a, self.b = a, b
        self.shared = {c for c in a if c in b and sig(a[c]) == sig(b[c]) and a[c].kind == b[c].kind}
        self.opaque, self.max_paths, self.closed = set(opaque), max_paths, set(closed)
        kw = dict(opaque=self.opaque, max_paths=max_paths, inl=self.inline)
        self.P, self.Q = Plugs(self.new, **kw), Plugs(self.ref, **kw)
    def inline(self, f): return not (f.canon.startswith(SKIP) and f.canon in self.shared)
    def paths(self, canon, **kw):
        """(reference paths, tree paths, engines)"""
        q, r = self.Q.nf(**kw), self.P.nf(**kw)
        fb, fa = self.b[canon], self.a[canon]
        args = [mk("arg", canon, i) for i, _ in fb.args]
        return q.paths(fb, args, post=True), r.paths(fa, args, post=True), q, r

_span = re.compile(r"src/[\w/.]+\.rs:\d+:\d+: \d+:\d+(?: \(#\d+\))?")

class Prints:
    """a function's intermediate code with closures named by what they are, not by where they stand"""
    def __init__(self, prog, w):
        self.prog, self.w, self.memo, self.own_ = prog, w, {}, {}
        self.name = {}
        for sp, f in prog.by_closure.items(): self.name[re.sub(r" \(#\d+\)$", "", sp.split("closure@")[-1].rstrip("}"))] = f
    def own(self, f):
        r = self.own_.get(id(f))
        if r is None:
            def nm(m):
                g = self.name.get(re.sub(r" \(#\d+\)$", "", m.group(0)))
                return g.canon if g is not None else "?"
            t = [repr(f.args), f.ret, repr(sorted(f.locals.items()))]
            for i, b in sorted(f.blocks.items()):
                t.append(str(i)); t += [s.text for s in b.stmts]; t.append(b.term.text)
            r = self.own_[id(f)] = _span.sub(nm, "\n".join(t))
        return r

def ident(f): return f.uname

class Group:
    """the routines of some modules, from the exported ones inwards"""
    def __init__(self, pair):
        self.p = pair
        self.fa, self.fb = Prints(pair.new.prog, pair.new.w), Prints(pair.ref.prog, pair.ref.w)
        self.same_, self.memo = {}, {}
    def same(self, canon):
        """the function and everything it reaches in the crate are the same intermediate code in both programs"""
        if canon in self.same_: return self.same_[canon]
        ra = {ident(f): f for f in self.reach(self.p.new, self.p.a[canon])}
        rb = {ident(f): f for f in self.reach(self.p.ref, self.p.b[canon])}
        r = ra.keys() == rb.keys() and all(self.fa.own(ra[c]) == self.fb.own(rb[c]) for c in ra)
        self.same_[canon] = r
        return r
    def changed(self, canon):
        """{name: (reference function, tree function)} that differ within what the routine is made of; functions compared on their own left out"""
        stop = lambda c: c != canon and c.startswith(SKIP) and c in self.p.shared and "{closure" not in c
        ra = {ident(f): f for f in self.reach(self.p.new, self.p.a[canon], stop)}
        rb = {ident(f): f for f in self.reach(self.p.ref, self.p.b[canon], stop)}
        return {c: (rb.get(c), ra.get(c)) for c in ra.keys() | rb.keys() if c not in ra or c not in rb or self.fa.own(ra[c]) != self.fb.own(rb[c])}
    def step(self, canon):
        """('differs', what) when the bodies, followed side by side, part at one place only; else ('unclear', why)"""
        ch = self.changed(canon)
        if not ch: return "same", ""
        whys, bad = {}, []
        for c, (f, g) in sorted(ch.items()):
            if f is None or g is None:
                if "promoted[" in c: continue      # seen where it is used
                return "unclear", "%s stands on one side only" % c
            if "promoted[" in c: continue
            why, es = lockstep.verdict(f, g, self.p.ref.prog.consts, self.p.new.prog.consts)
            if es is None: bad.append(c)
            elif es and why is None: bad.append(c)
            elif why: whys[c] = why
        if bad: return "unclear", "%s is written otherwise" % bad[0]
        if len(whys) == 1 or whys and len(set(whys.values())) == 1:
            return "differs", "; ".join("%s: %s" % (c, w) for c, w in whys.items())
        return ("unclear", "several changes") if whys else ("same", "")
    def reach(self, nat, f, stop=None):
        if stop is not None:
            seen, st = {}, [f]
            while st:
                g = st.pop()
                if id(g) in seen: continue
                seen[id(g)] = g
                st += [h for h in refs(nat, g) if not stop(ident(h))]
            return list(seen.values())
        k = (id(nat), ident(f))
        if k not in self.memo:
            seen, st = {}, [f]
            while st:
                g = st.pop()
                if id(g) in seen: continue
                seen[id(g)] = g
                st += refs(nat, g)
            self.memo[k] = list(seen.values())
        return self.memo[k]

def refs(nat, f):
    """functions, closures, constants and statics of the crate a function mentions"""
    c = nat.__dict__.setdefault("_refs", {})
    if id(f) in c: return c[id(f)]
    out = []
    t = "\n".join(x for b in f.blocks.values() for x in [s.text for s in b.stmts] + [b.term.text])
    for m in set(re.findall(r"\{closure@[^}]*\}", t)):
        g = nat.prog.by_closure.get(m) or nat.prog.by_closure.get(m[9:-1])
        if g is not None and "_polars_plugin_" in f.canon and not g.canon.startswith(f.canon + "::"):
            g = nat.prog.fns.get(f.name + "::{closure#0}")        # generated code: one span for several closures
        if g is not None: out.append(g)
    for b in f.blocks.values():
        if b.term.kind == "call" and b.term.callee: out += nat.prog.resolve(b.term.callee)
    idx = nat.__dict__.get("_words")
    if idx is None:
        idx = nat._words = {}
        for g in nat.prog.fns.values(): idx.setdefault(g.canon.split("::")[-1], []).append((g.canon, g))
        for n, g in nat.prog.consts.items():
            if "promoted[" not in n: idx.setdefault(n.split("::")[-1], []).append((n, g))
            nat.__dict__.setdefault("_prom", {}).setdefault(n.split("::promoted[")[0], []).append(g)
    if "promoted[" not in f.name: out += [g for g in nat._prom.get(f.name, ()) if g is not f]
    for m in set(re.findall(r"(?:const |static |move |copy )?((?:\w+::)+\w+)", t)):
        for n, g in idx.get(m.split("::")[-1], ()):
            if n.endswith(m) or m.endswith(n): out.append(g)
    c[id(f)] = out
    return out

def pair(ctx): return ctx.cached("equiv", lambda: Group(Pair(ctx.native)))

def roots(G, pick):
    """names of the routines to compare: exported ones, methods of the Python classes, and the functions that stay opaque in those"""
    p = G.p
    out, hidden = [], []
    for c, f in p.b.items():
        if "{closure" in c and "_polars_plugin_" not in c or "_polars_plugin_field_" in c or "promoted[" in c: continue
        if not pick(c): continue
        if c.endswith("}") or re.search(r"::\{closure#\d+\}$", c): continue
        exported = any(x.body.canon == c for x in p.ref.plugins.values()) or c.startswith("pymodels::") or c.startswith("<pymodels")
        if exported: out.append(c)
        elif c.startswith(SKIP): hidden.append(c)
    return sorted(out), sorted(hidden)

def live(G):
    """functions an exported routine or a Python class can reach in the tree (trait methods by name)"""
    p = G.p
    if hasattr(G, "_live"): return G._live
    tops = [x.body for x in p.new.plugins.values()] + [x for x in [p.new.prog.fns.get(x.field_fn) if isinstance(x.field_fn, str) else x.field_fn for x in p.new.plugins.values()] if x is not None]
    tops += [f for c, f in p.a.items() if c.startswith("pymodels::") or c.startswith("<pymodels")]
    seen, st, words = {}, list(tops), {}
    for f in p.new.prog.fns.values(): words.setdefault(f.canon.split("::")[-1], []).append(f)
    while st:
        f = st.pop()
        if id(f) in seen: continue
        seen[id(f)] = f
        st += refs(p.new, f)
        for b in f.blocks.values():
            if b.term.kind == "call" and b.term.callee:
                from .mterm import last_of
                st += [g for g in words.get(last_of(b.term.callee), ()) if g.kind == "fn" and "{closure" not in g.canon]
    G._live = {f.uname for f in seen.values()}
    return G._live

def calls_in(ts, recs):
    out, seen, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        for x in walk(t):
            if x in seen and x is not t: continue
            seen.add(x)
            if x.k in ("call", "mut"): out.add(x.a[0].split("::")[-1])
            elif x.k in ("fn", "fnref"): out.add(str(x.a[0]).split("::")[-1])
            elif x.k == "rec" and x.a[0] in recs: st.append(recs[x.a[0]])
    return out

def check_one(G, c, rep, what):
    p = G.p
    name = c.split("::")[-1] if "::" in c else c
    if c not in p.a: rep.undecide(c, "not in the tree under that name"); return
    if sig(p.a[c])[0] != sig(p.b[c])[0] and len(p.a[c].args) != len(p.b[c].args): rep.undecide(c, "takes other arguments than the reference"); return
    if G.same(c):
        rep.count("same_code"); rep.check(c, True, ""); return
    rep.count("compared")
    verdict, level, a, hs = None, 0, [], []
    for level in (0, 1):
        kw = {}
        if level:
            op = set(p.opaque) | {x for x in p.shared if "{closure" not in x} | {x.split("::")[-1] for x in p.shared if "{closure" not in x}
            op -= {c, name}
            kw = dict(opaque=op)
        try:
            a, b, q, r = p.paths(c, **kw)
            recs = dict(q.recs); recs.update(r.recs)
            verdict, hs = compare(a, b, recs, q)
            break
        except TooBig: verdict = None
        except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError): verdict = None
    rep.count("outcomes", len(a))
    tables = [x for x, (f, g) in G.changed(c).items() if f is not None and g is not None and f.kind != "fn" and "promoted[" not in x]
    if verdict == "differs":
        rep.check(c, False, "%s %s: %s (reference vs tree)" % (c, what, told(hs))); return
    if verdict == "same":
        # functions that did not get looked through (several implementations, opaque ones) answer for themselves
        ch = [h for h, (f, g) in G.changed(c).items() if f is not None and g is not None and h in p.shared and h != c and "{closure" not in h and f.kind == "fn"]
        if ch:
            names = calls_in([v for _, v, _ in a] + [k for d, _, _ in a if d for k in d], recs)
            for h in sorted(ch):
                if h.split("::")[-1].split("#")[0] in names: check_once(G, h, rep, what)
    if verdict == "same" and not tables: rep.check(c, True, "")
    else:
        if verdict == "same":
            # the computation is the same; the tables it reads are not
            st, why = "unclear", ""
            ws = {x: lockstep.verdict(*G.changed(c)[x], p.ref.prog.consts, p.new.prog.consts) for x in tables}
            if all(es == [] for w, es in ws.values()): st = "same"
            elif all(w or es == [] for w, es in ws.values()): st, why = "differs", "; ".join("%s: %s" % (x, w) for x, (w, _) in ws.items() if w)
        else:
            rep.count("side_by_side")
            st, why = G.step(c)
        if st == "same": rep.check(c, True, "")
        elif st == "differs": rep.check(c, False, "%s %s: %s" % (c, what, why))
        else:
            if os.environ.get("VF_DEBUG"):
                for x, y, k, inj in hs[:6]: print("   U", c, k, inj, "|", show(x, 7)[:700], "  VS  ", show(y, 7)[:700], file=sys.stderr)
            rep.undecide(c, ("no certain verdict: %s (reference vs tree); %s" % (told(hs, 2), why)) if verdict else "no normal form within the budget; " + why)
    if level:
        # the helpers that stayed opaque, on their own
        for f in G.reach(p.ref, p.b[c]):
            h = f.uname
            if h and h != c and h in p.shared and "{closure" not in h and not h.startswith(SKIP) and f.kind == "fn" and "promoted[" not in h: check_once(G, h, rep, what)

def check_once(G, c, rep, what):
    done = rep.__dict__.setdefault("_eqdone", set())
    if c in done: return
    done.add(c); check_one(G, c, rep, what)

def run_group(ctx, rep, pick, what, least, hidden=True):
    G = pair(ctx)
    p = G.p
    ex, hid = roots(G, pick)
    alive = live(G)
    for c in ex: check_once(G, c, rep, what)
    for c in hid if hidden else []:
        if c not in p.shared: continue        # looked through where it is used
        if c not in alive: rep.count("unreachable"); continue
        check_once(G, c, rep, what)
    # declared result types
    for pl in p.ref.plugins.values():
        f = p.ref.prog.fns.get(pl.field_fn) if isinstance(pl.field_fn, str) else pl.field_fn
        if f is not None and "_polars_plugin_" not in f.uname and pick(f.uname) and f.uname in p.shared: check_once(G, f.uname, rep, what)
    # whatever else is reachable and is no longer the reference's code
    seen = set()
    for c in list(rep.__dict__.get("_eqdone", ())):
        if c in p.b: seen |= {ident(f) for f in G.reach(p.ref, p.b[c])}
    for c, f in sorted(p.a.items()):
        if c in seen or not (pick(c) or pick(f.name)) or c not in alive or f.kind != "fn" or "{closure" in c or "promoted[" in c or "_polars_plugin_" in c or c not in p.shared: continue
        if G.same(c): continue
        check_once(G, c, rep, what)
    rep.count("routines", len(ex)); rep.count("inner_functions", len(hid))
    rep.floor("routines", least)
