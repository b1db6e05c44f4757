"""C13: documented option values, in the Python signatures and in the native code that interprets them."""
from __future__ import annotations
import ast, re
from .. import builders
from .. import pysym as S
from ..diff import compare, told
from ..equiv import pair, sig
from ..msym import walk, show
from ..nf import TooBig

RULE = ("each native function that turns a string into an option is brought to normal form; for every option value documented in Python, every value it or its reference tests for, and a value nobody documents, "
        "the outcomes left after deciding its string tests must be the reference's, and a documented value must not end up where an undocumented one does unless that is the documented default; "
        "each Python function with an option annotated by a list of values is executed symbolically once per value, and two values of one option must not give the same results throughout")
TECHNIQUE = "path-sensitive abstract interpretation of MIR and symbolic execution of Python, specialised to each documented option value"
TRUST = ["the string a Python function hands to the native routine is the option it was given (C02, C28-C38)", "the reference parsers in spec/ref/native"]

# native parser -> (where the values are documented, the documented default that an unknown value may share)
PARSERS = {
 "<Alternative as From>::from": ("Alternative", "two-sided"),
 "<ConvMethod as TryFrom>::try_from": ("ConvMethod", None),
 "<ConvMode as TryFrom>::try_from": ("ConvMode", None),
 "<LRMethods as From>::from": ("LRMethods", "normal"),
 "<LRSolverMethods as From>::from": ("LRSolverMethods", "qr"),
 "<NormalForm as TryFrom>::try_from": (("NFC", "NFKC", "NFD", "NFKD"), None),
 "<NullPolicy as TryFrom>::try_from": ("NullPolicy", None),
 "<StandardError as From>::from": (("se", "hc0", "hc1", "hc2", "hc3"), "se"),
 "utils::DIST::new_from_str_informed": ("Distance", None),
}
STRANGE = "no-such-option"

def aliases(pkg):
    """{alias: values} of the Literal aliases in typing.py"""
    out = {}
    for m in pkg.mods.values():
        for n in m.tree.body if hasattr(m, "tree") else []:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                v = literals(n.value, {})
                if v: out[n.target.id] = v
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = literals(n.value, {})
                if v: out[n.targets[0].id] = v
    return out

def literals(a, al):
    """string values an annotation lists; None when it lists none or admits others"""
    if isinstance(a, ast.Subscript) and getattr(a.value, "id", getattr(a.value, "attr", "")) == "Literal":
        els = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        vs = [e.value for e in els if isinstance(e, ast.Constant)]
        return tuple(vs) if len(vs) == len(els) and all(isinstance(v, str) for v in vs) else None
    if isinstance(a, ast.Name): return al.get(a.id)
    if isinstance(a, ast.Attribute): return al.get(a.attr)
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try: return literals(ast.parse(a.value, mode="eval").body, al)
        except SyntaxError: return None
    return None

def folded(t, arg, s):
    """value of a string term for the option s"""
    if t.k == "str": return t.a[0]
    if t is arg: return s
    if t.k == "call" and len(t.a) == 3:
        v = folded(t.a[2], arg, s)
        if v is None: return None
        f = t.a[0].split("::")[-1]
        if f in ("to_lowercase", "to_ascii_lowercase"): return v.lower()
        if f in ("to_uppercase", "to_ascii_uppercase"): return v.upper()
        if f in ("trim",): return v.strip()
        if f in ("as_str", "as_ref", "deref", "borrow", "to_string", "clone", "into", "to_owned"): return v
    if t.k in ("ref", "deref") : return folded(t.a[-1], arg, s) if hasattr(t.a[-1], "k") else None
    return None

def special(paths, arg, s):
    """outcomes that remain for the option s"""
    out = []
    for c, v, x in paths:
        if c is None: out.append((c, v, x)); continue
        rest = {}
        for k, w in c.items():
            if k.k == "bin" and k.a[0] == "Eq":
                a, b = folded(k.a[1], arg, s), folded(k.a[2], arg, s)
                if a is not None and b is not None:
                    if (a == b) is not w: break
                    continue
            rest[k] = w
        else: out.append((rest, v, x))
    return out

def strings(paths):
    out = set()
    for c, v, _ in paths:
        for k in c or {}:
            if k.k == "bin" and k.a[0] == "Eq": out |= {x.a[0] for x in k.a[1:] if x.k == "str"}
    return out

# documented values that rightly give the same: ordering by a distance or by its square
ALIKE = {("is_knn_from", frozenset(("l2", "sql2")))}

def described(n, param):
    """values the description of a parameter names"""
    d, out, on, ind = ast.get_docstring(n) or "", set(), False, 0
    for l in d.split("\n"):
        m = re.match(r"^(\s*)(\*{0,2}\w+)\s*(:.*)?$", l)
        if m and (m.group(2) == param or on and len(m.group(1)) <= ind): on, ind = m.group(2) == param, len(m.group(1))
        if on: out |= set(re.findall(r"[`'\"]([\w-]+)[`'\"]", l))
    return out

def shown(o): return " | ".join(sorted("%s%s" % (show(v, 3), " when " + ", ".join(("" if x else "not ") + show(k, 3) for k, x in c.items()) if c else "") for c, v, _ in o))[:200]

def run(ctx, rep):
    al = aliases(ctx.pkg)
    rep.count("documented_lists", len(al)); rep.floor("documented_lists", 8)
    G = pair(ctx); p = G.p
    for c, (doc, default) in PARSERS.items():
        vals = al.get(doc) if isinstance(doc, str) else doc
        if c not in p.b or vals is None: rep.undecide(c, "no such parser or list of values in the reference"); continue
        if c not in p.a or sig(p.a[c]) != sig(p.b[c]): rep.undecide(c, "not in the tree under that name"); continue
        try: a, b, q, r = p.paths(c)
        except TooBig: rep.undecide(c, "no normal form within the budget"); continue
        recs = dict(q.recs); recs.update(r.recs)
        from ..msym import mk
        arg = mk("arg", c, 1)
        ss = set(vals) | strings(a) | strings(b) | {STRANGE}
        odd = special(b, arg, STRANGE)
        for s in sorted(ss):
            rep.count("option_values")
            x, y = special(a, arg, s), special(b, arg, s)
            verdict, hs = compare(x, y, recs, q)
            key = "%s(%r)" % (c, s)
            if verdict == "differs": rep.check(key, False, "%s selects %s, the reference %s" % (key, shown(y), shown(x)))
            elif verdict == "unclear":
                u, v = shown(x), shown(y)
                rep.undecide(key, "%s here, %s in the reference" % (v, u))
            else: rep.check(key, True, "")
            if s in vals and s != default:
                # known under its name, not by falling through
                known = any(s in (z.lower(), z.upper(), z) for z in strings(b))
                rep.check(key + ": recognised", known, "%s is documented (%s) but %s does not know it: it selects %s, what any unknown value selects" % (s, doc, c, shown(y)))
    rep.floor("option_values", 40)
    # Python: every value of an option its own behaviour
    fns = 0
    it = S.Interp(ctx.pkg, max_paths=600)
    for clo in builders.all_functions(ctx.pkg):
        n = clo.node
        if not isinstance(n, ast.FunctionDef): continue
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            vals = literals(a.annotation, al) if a.annotation is not None else None
            if not vals or len(vals) < 2: continue
            key = "%s(%s)" % (builders.short(clo.qual), a.arg)
            fns += 1
            seen = {}
            try:
                for v in vals:
                    ps = it.run(clo, params={a.arg: S.Const(v)})
                    if it.truncated: seen = None; break
                    sg = frozenset((frozenset((repr(t), b) for t, b in p.conds), p.outcome, repr(p.value), tuple(repr(x) for x in p.calls), repr(p.selfobj.attrs) if getattr(p.selfobj, "attrs", None) else "") for p in ps)
                    if not any(p.outcome == "return" for p in ps):
                        if v in described(n, a.arg): rep.check(key + ": " + v, False, "%s: the documented value %r is refused on every path" % (key, v))
                        continue
                    seen.setdefault(sg, []).append(v)
            except Exception as e: rep.undecide(key, "not executed: %s" % type(e).__name__); continue
            if seen is None: rep.undecide(key, "too many paths"); continue
            same = [vs for vs in seen.values() if len(vs) > 1 and (clo.name, frozenset(vs)) not in ALIKE]
            rep.check(key, not same, "%s: the documented values %s give the same results" % (key, " and ".join(map(repr, same[0])) if same else ""))
    rep.count("python_options", fns); rep.floor("python_options", 20)
