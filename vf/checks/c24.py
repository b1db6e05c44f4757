import ast, json, os
from .. import builders as B, pysym as S
TECHNIQUE = "name-binding analysis of the package's import graph plus path-sensitive abstract interpretation (term domain) of the compatibility wrapper"
RULE = ("The namespace each package module ends up with is computed from the syntax trees (definitions, imports, star imports in order, __all__).  No public name may be bound twice to "
        "different definitions on the way to the package namespace, no module may define an exported name twice, every exported name must be defined, every name of the reviewed API list must be bound, and the "
        "compatibility object must not block an expression function and must forward every positional and keyword argument.")
TRUST = ["modules are imported normally (no runtime patching of namespaces)"]
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

def all_of(mod):
    """__all__ including += / .extend / .append at module level; None when absent, 'unknown' when computed"""
    out = None
    for st in mod.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets):
            out = S._all_list(mod, st.value)
            if out is None: return "unknown"
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == "__all__":
            r = S._all_list(mod, st.value)
            if r is None or out is None: return "unknown"
            out = out + r
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == "__all__":
            f = st.value.func.attr
            if f == "extend" and out is not None:
                r = S._all_list(mod, st.value.args[0])
                if r is None: return "unknown"
                out = out + r
            elif f == "append" and out is not None and isinstance(st.value.args[0], ast.Constant): out = out + [st.value.args[0].value]
            elif f == "remove" and out is not None and isinstance(st.value.args[0], ast.Constant): out = [x for x in out if x != st.value.args[0].value]
            else: return "unknown"
    return out

class Space:
    def __init__(self, pkg): self.pkg, self.memo = pkg, {}
    def of(self, name):
        """{name: (defining module, name)} in binding order, and [(name, first, second)] rebindings"""
        if name in self.memo: return self.memo[name]
        mod = self.pkg.mods[name]
        ns, re_ = {}, []
        self.memo[name] = (ns, re_)
        def bind(n, d, how):
            if n in ns and ns[n] != d and not n.startswith("_"): re_.append((n, ns[n], d, how))
            ns[n] = d
        def go(body, cond):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): 
                    overload = any((getattr(d, "id", None) or getattr(d, "attr", "")) == "overload" for d in st.decorator_list)
                    bind(st.name, (name, st.name, 0 if cond or overload else st.lineno), "def")
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name): bind(x.id, (name, x.id, 0), "assign")
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None: bind(st.target.id, (name, st.target.id, 0), "assign")
                elif isinstance(st, ast.Import):
                    for a in st.names: bind(a.asname or a.name.split(".")[0], ("import", a.name if a.asname else a.name.split(".")[0], 0), "import")
                elif isinstance(st, ast.ImportFrom):
                    base = mod.resolve_rel(st)
                    if base in self.pkg.mods and base.startswith(name + ".") and mod.is_pkg:
                        bind(base[len(name) + 1:].split(".")[0], ("submodule", base, 0), "submodule")
                    for a in st.names:
                        if a.name == "*":
                            if base in self.pkg.mods:
                                for n, d in self.exports(base).items(): bind(n, d, "star import of " + base)
                        elif base in self.pkg.mods and a.name in self.of(base)[0]: bind(a.asname or a.name, self.of(base)[0][a.name], "import")
                        else: bind(a.asname or a.name, ("import", base + "." + a.name, 0), "import")
                elif isinstance(st, ast.If): go(st.body, True); go(st.orelse, True)
                elif isinstance(st, ast.Try):
                    go(st.body, True)
                    for h in st.handlers: go(h.body, True)
                    go(st.orelse, True)
        go(mod.tree.body, False)
        return self.memo[name]
    def exports(self, name):
        ns = self.of(name)[0]
        al = all_of(self.pkg.mods[name])
        if al is None: return {n: d for n, d in ns.items() if not n.startswith("_")}
        if al == "unknown": return {}
        return {n: ns[n] for n in al if n in ns}

def run(ctx, rep):
    pkg = ctx.pkg
    sp = Space(pkg)
    ext = lambda d: d[0] in ("import",)
    for mn, mod in sorted(pkg.mods.items()):
        if any(x in mn for x in B.SKIP_MODULES): continue
        al = all_of(mod)
        ns, re_ = sp.of(mn)
        rep.count("modules")
        if al == "unknown": rep.undecide(mn + ": __all__", "computed __all__"); al = None
        for n in al or ():
            rep.count("exported names")
            rep.check("%s: %s defined" % (mn, n), n in ns, "%s exports '%s', which it does not define" % (mn, n))
        for n in {x for x in al or () if list(al).count(x) > 1}: rep.notes.append("%s lists '%s' twice in __all__" % (mn, n))
        public = set(al) if al is not None else {n for n in ns if not n.startswith("_")}
        for n, a, b, how in re_:
            if n not in public: continue
            if ext(a) and ext(b) and a[1] == b[1]: continue
            # two packages' plain imports of the same third-party module, re-exported
            if ext(a) and ext(b): continue
            if how in ("assign",) and a[0] == b[0] == mn: continue            # a module re-assigning its own value
            if a[0] == b[0] and a[1] == b[1] and 0 in (a[2], b[2]): continue   # conditional or overloaded definitions
            rep.fail("%s: %s bound twice" % (mn, n), "in %s the public name '%s' of %s is rebound by %s (%s)" % (mn, n, a[0], b[0], how))
        rep.obl += 1; rep.ok += 1
    rep.floor("exported names", 150)
    top = sp.of(S.PKG)[0]
    with open(os.path.join(HERE, "spec", "public_names.json")) as f: names = json.load(f)["names"]
    for n in names:
        d = top.get(n)
        rep.check("api: " + n, d is not None and d[0] in pkg.mods, "the expression function '%s' no longer reaches the package namespace" % n)
    compat(ctx, rep, names)

def compat(ctx, rep, names):
    pkg = ctx.pkg
    m = pkg.mods.get(S.PKG + ".compat._compat")
    if m is None: rep.undecide("compat", "no compat module"); return
    cls = next((c for n, c in m.classes().items() if any(isinstance(x, ast.FunctionDef) and x.name == "__getattr__" for x in c.body)), None)
    if cls is None: rep.undecide("compat", "no class with __getattr__"); return
    # names refused: run __getattr__ with each public name
    cr = S.ClassRef(cls, m)
    clo = S.Closure(cr.method("__getattr__"), m, cls=cr)
    it = S.Interp(pkg)
    namep = clo.node.args.args[1].arg
    for n in names:
        ps = it.run(clo, params={namep: S.Const(n)})
        rep.count("compat names")
        bad = [p for p in ps if p.outcome == "raise" and not p.conds]
        rep.check("compat: %s reachable" % n, not bad, "the compatibility layer refuses the expression function '%s'" % n)
    # the wrapper forwards every argument
    ps = [p for p in it.run(clo) if p.outcome == "return"]
    done = False
    for p in ps:
        w = p.raw
        if not isinstance(w, S.Closure): continue
        for q in it.run(w):
            if q.outcome != "return": continue
            done = True
            va, vk = w.node.args.vararg, w.node.args.kwarg
            hit = None
            for t in q.calls:
                f, a, k = t.args
                if isinstance(f, S.Op) and namep in S.deps(f) and "attr" not in (f.op,): hit = (a, k)
                elif isinstance(f, S.Op) and f.op in ("getattr", "dynattr") : hit = (a, k)
                elif isinstance(f, S.Op) and f.op == "call" and namep in S.deps(f): hit = (a, k)
            if hit is None: rep.undecide("compat: forwarding", "call of the expression function not found on a path"); continue
            d = set()
            for x in list(hit[0]): d |= S.deps(x)
            rep.check("compat: positional arguments forwarded", va is None or va.arg in d, "the compatibility wrapper does not forward its positional arguments")
            d = set()
            for x in hit[1]: d |= S.deps(x if isinstance(x, S.Term) else x[1])
            for x in hit[0]: d |= S.deps(x)
            rep.check("compat: keyword arguments forwarded", vk is None or vk.arg in d, "the compatibility wrapper does not forward its keyword arguments")
    if not done: rep.undecide("compat: forwarding", "wrapper not found")
