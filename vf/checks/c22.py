"""C22: built-in text tables: order, links, action codes, character groupings, contents."""
from __future__ import annotations
import re
from .. import mir, native
from ..msym import Interp, mk, walk

RULE = ("the constant tables of src/str_ext are evaluated from their MIR; every call that searches one is found by path-sensitive interpretation of the function it stands in: "
        "a table searched by bisection must be strictly ascending in the byte order of that search (from the front for find_among and binary_search, from the back for find_among_b), each entry's link must be the longest other entry that is its proper prefix (suffix), "
        "the code tests after the search must tell the table's codes apart, a character grouping must have one bit per code point between the bounds it is asked with and none beyond; entries and codes must be those of the reference tables")
TECHNIQUE = "evaluation of constant tables from MIR with dataflow from the tables to the searches that read them"
TRUST = ["find_among and find_among_b search as documented (C39)", "the reference tables in spec/ref/native are the published ones (Snowball 2.2.0 English, NLTK stop words)"]

FWD, BWD = ("find_among",), ("find_among_b",)
GROUP = ("in_grouping", "in_grouping_b", "out_grouping", "out_grouping_b")

def tables(nat):
    """{name: value term} of the array constants of str_ext"""
    it = Interp(nat.prog, nat.w)
    out = {}
    for n, f in nat.prog.consts.items():
        if not n.startswith("str_ext::") or "promoted[" in n or "{" in n: continue
        ty = f.ret
        if not re.search(r"\[(&str|[\w:]*Among<.*>|u8|i32|char)(; \d+)?\]", ty): continue
        v = it.promoted(n)
        while v is not None and v.k in ("ref",) : v = v.a[-1]
        if v is not None and v.k == "array": out[n] = v
    return out

def entries(v):
    """[(text, link, code)] of a table of Among entries, or None"""
    out = []
    for e in v.kids if hasattr(v, "kids") else v.a:
        xs = [x for x in e.a if hasattr(x, "k")] if e.k != "tuple" else list(e.a)
        s = [x for x in xs if x.k == "str"]; n = [x.a[0] for x in xs if x.k == "int"]
        if len(s) != 1 or len(n) != 2: return None
        m = [x for x in xs if x.k not in ("str", "int")]
        out.append((s[0].a[0], n[0], n[1], tuple(repr(x) for x in m)))
    return out

def words(v):
    xs = list(v.a)
    return [x.a[0] for x in xs] if xs and all(getattr(x, "k", None) == "str" for x in xs) else None

def numbers(v):
    xs = list(v.a)
    return [x.a[0] for x in xs] if xs and all(getattr(x, "k", None) == "int" for x in xs) else None

def named_in(t, names):
    for x in walk(t):
        if x.k == "const":
            m = re.match(r"^\{(?:static|alloc) ?([\w:]+): ", x.a[0])
            n = m.group(1) if m else x.a[0]
            if n in names: return n
    return None

def terms(paths):
    seen = set()
    for p in paths:
        for src in ([k for k, _ in (p.conds.items() if isinstance(p.conds, dict) else p.conds)], [p.value] if p.value is not None else [], list(p.events or [])):
            for s in src:
                for x in flat(s):
                    for y in walk(x):
                        if id(y) not in seen:
                            seen.add(id(y)); yield y

def flat(s):
    if hasattr(s, "k"): yield s
    elif isinstance(s, (tuple, list)):
        for x in s: yield from flat(x)

def uses(nat, tabs):
    """[(function, call term, callee, table)], {function: paths}"""
    prog = nat.prog
    # functions whose text mentions a table
    out, ps = [], {}
    for f in prog.fns.values():
        if not f.name.startswith("str_ext::"): continue
        txt = "\n".join(s.text for b in f.blocks.values() for s in b.stmts) + "\n".join(b.term.text for b in f.blocks.values())
        if not any(re.search(r"\b%s\b" % re.escape(n), txt) for n in tabs): continue
        it = Interp(prog, nat.w, inline=lambda g: False, max_paths=4000)
        try: paths = it.run(f, [mk("arg", f.canon, i) for i, _ in f.args])
        except Exception: paths = None
        ps[f.canon] = paths
        if paths is None: continue
        seen = set()
        for t in terms(paths):
            if t.k in ("call", "mut"):
                args = [x for x in t.a[1:] if hasattr(x, "k")]
                callee = t.a[0].split("::")[-1].split("<")[0]
                for x in args:
                    if x.k == "call" or x.k == "mut": continue
                    n = named_in(x, tabs) if x.k in ("const", "ref", "deref", "cast", "array") else None
                    if x.k == "array":
                        n = next((k for k, v in tabs.items() if v is x), n)
                    if n and (callee, n, id(t)) not in seen:
                        seen.add((callee, n, id(t))); out.append((f.canon, t, callee, n))
    return out, ps

def mentions(nat, n):
    """bisections in the functions that mention a table (by name or through a promoted reference)"""
    body = lambda f: "\n".join([s.text for b in f.blocks.values() for s in b.stmts] + [b.term.text for b in f.blocks.values()])
    pat = re.compile(r"\b%s\b" % re.escape(n))
    via = {m for m, f in nat.prog.consts.items() if m != n and pat.search(body(f))}
    out = set()
    for f in nat.prog.fns.values():
        t = body(f)
        if pat.search(t) or any(v in t for v in via): out |= set(re.findall(r"::(binary_search(?:_by(?:_key)?)?|partition_point|contains)\b", t))
    return out

def reach(nat, us, tabs):
    """{function: the table values searched in it and in what it calls}"""
    fns = {f.canon: f for f in nat.prog.fns.values() if f.name.startswith("str_ext::")}
    own = {}
    for f, t, c, n in us:
        if c in FWD + BWD + GROUP: own.setdefault(f, set()).add(tabs[n])
    calls = {}
    for c, f in fns.items():
        calls[c] = set()
        for b in f.blocks.values():
            if b.term.kind == "call":
                m = re.search(r"= (?:const )?([\w:<>]+)\(", b.term.text)
                if m and m.group(1) in fns: calls[c].add(m.group(1))
    out = {c: set(own.get(c, ())) for c in fns}
    grow = True
    while grow:
        grow = False
        for c in fns:
            for d in calls[c]:
                if not out[d] <= out[c]: out[c] |= out[d]; grow = True
    return out

def run(ctx, rep):
    nat = ctx.native
    tabs = tables(nat)
    ref = native.Native(mir.load_reference())
    rtabs = tables(ref)
    us, ps = uses(nat, tabs)
    rep.count("tables", len(tabs)); rep.floor("tables", 10)
    for f, p in ps.items():
        if p is None: rep.undecide(f, "not interpreted")
    rus, rps = uses(ref, rtabs)
    mine, theirs = reach(nat, us, tabs), reach(ref, rus, rtabs)
    for f in sorted(set(mine) & set(theirs)):
        lost = theirs[f] - mine[f]
        if not theirs[f]: continue
        if any(p is None for p in ps.values()): rep.undecide(f, "not all readers interpreted"); continue
        gone = [next(n for n, v in rtabs.items() if v is x) for x in lost]
        # a table whose contents changed is reported for its contents
        gone = [n for n in gone if n not in tabs or not any(m == n for _, _, _, m in us) or tabs[n] is rtabs[n]]
        rep.check("%s: tables" % f, not gone, "%s no longer searches %s" % (f, ", ".join(gone)))
    short = lambda n: n.split("::")[-1]
    for n, v in sorted(tabs.items()):
        E, W, N = entries(v), words(v), numbers(v)
        how = {c for _, _, c, m in us if m == n}
        if W is not None and not how: how = mentions(nat, n)
        if E is not None:
            keys = [e[0] for e in E]
            rep.count("entries", len(E))
            back = how & set(BWD); fwd = how & set(FWD)
            if not back and not fwd: rep.undecide(short(n), "no search found that reads it"); continue
            for d in [x for x, y in (("back", back), ("front", fwd)) if y]:
                ks = [k.encode()[::-1] if d == "back" else k.encode() for k in keys]
                bad = [keys[i + 1] for i in range(len(ks) - 1) if not ks[i] < ks[i + 1]]
                rep.check("%s: order" % short(n), not bad, "%s is bisected from the %s but %r does not come after the entry before it" % (n, d, bad[0] if bad else ""))
                for i, e in enumerate(E):
                    c = [j for j in range(len(ks)) if j != i and ks[i].startswith(ks[j]) and ks[j] != ks[i]]
                    want = max(c, key=lambda j: len(ks[j])) if c else -1
                    rep.check("%s[%r]: link" % (short(n), e[0]), e[1] == want, "%s: entry %r continues at %s, its longest proper %s is %s" % (n, e[0], repr(keys[e[1]]) if 0 <= e[1] < len(keys) else e[1], "suffix" if d == "back" else "prefix", repr(keys[want]) if want >= 0 else "none"))
            # codes told apart after the search
            codes = {e[2] for e in E}
            for f in sorted({f for f, _, c, m in us if m == n and c in FWD + BWD}):
                calls = {id(t) for g, t, c, m in us if g == f and m == n}
                tested = set()
                for t in terms(ps[f]):
                    if t.k == "bin" and t.a[0] in ("Eq", "Ne"):
                        x, y = t.a[1], t.a[2]
                        if x.k == "int": x, y = y, x
                        if y.k == "int" and id(x) in calls: tested.add(y.a[0])
                pos = {c for c in codes if c > 0}
                lost = pos - tested
                rep.count("searches")
                if tested - {0}:
                    rep.check("%s in %s: codes" % (short(n), short(f)), len(lost) <= 1, "%s searches %s, whose codes %s it does not tell apart" % (f, n, sorted(lost)))
                    rep.check("%s in %s: no-match" % (short(n), short(f)), 0 not in codes, "%s: an entry of %s has code 0, which means no match" % (f, n))
                else:
                    rep.check("%s in %s: codes" % (short(n), short(f)), len(codes) == 1 and 0 not in codes, "%s only asks whether an entry of %s matches, but its codes are %s" % (f, n, sorted(codes)))
            content(rep, n, {e[0]: (e[2], e[3]) for e in E}, {m: {e[0]: (e[2], e[3]) for e in entries(u)} for m, u in rtabs.items() if entries(u) is not None})
        elif W is not None:
            rep.count("entries", len(W))
            if how & {"binary_search", "binary_search_by", "binary_search_by_key", "partition_point"}:
                ks = [w.encode() for w in W]
                bad = [W[i + 1] for i in range(len(ks) - 1) if not ks[i] < ks[i + 1]]
                rep.check("%s: order" % short(n), not bad, "%s is searched by bisection but %r does not come after the entry before it" % (n, bad[0] if bad else ""))
            elif not how: rep.undecide(short(n), "no search found that reads it")
            rep.check("%s: repeats" % short(n), len(set(W)) == len(W), "%s lists an entry twice" % n)
            content(rep, n, {w: (0, ()) for w in W}, {m: {w: (0, ()) for w in words(u)} for m, u in rtabs.items() if words(u) is not None})
        elif N is not None:
            for f, t, c, m in us:
                if m != n or c not in GROUP: continue
                b = [x.a[0] for x in t.a[1:] if hasattr(x, "k") and x.k == "int"]
                b = b[-2:] if t.k == "call" else b[-2:]
                key = "%s in %s: bounds" % (short(n), short(f))
                if len(b) != 2: rep.undecide(key, "bounds not constant"); continue
                lo, hi = b
                bits = [i for i in range(8 * len(N)) if N[i >> 3] >> (i & 7) & 1]
                rep.check(key, len(N) == (hi - lo) // 8 + 1 and bits and bits[0] == 0 and bits[-1] == hi - lo,
                          "%s asks %s about the code points %d..%d, but its %d bytes hold the points %s..%s" % (f, n, lo, hi, len(N), lo + bits[0] if bits else "-", lo + bits[-1] if bits else "-"))
                rep.count("groupings")
            content(rep, n, dict(enumerate((x, ()) for x in N)), {m: dict(enumerate((x, ()) for x in numbers(u))) for m, u in rtabs.items() if numbers(u) is not None})
    rep.floor("entries", 200); rep.floor("searches", 9); rep.floor("groupings", 8)


def content(rep, n, mine, refs):
    key = "%s: contents" % n.split("::")[-1]
    if mine in refs.values(): rep.check(key, True, ""); return
    r = refs.get(n)
    if r is None: rep.undecide(key, "no reference table of that name or contents"); return
    d = [k for k in list(r) + list(mine) if r.get(k) != mine.get(k)]
    ren = {}
    if set(r) == set(mine) and all(ren.setdefault(r[k][0], mine[k][0]) == mine[k][0] and r[k][1] == mine[k][1] for k in r) and len(set(ren.values())) == len(ren) and len(ren) > 1 and not isinstance(d[0], int):
        rep.undecide(key, "the codes are numbered otherwise than in the reference"); return
    rep.check(key, False, "%s: entry %r is %s, the published table has %s" % (n, d[0], mine.get(d[0], ("missing",))[0], r.get(d[0], ("none",))[0]))
