from .. import builders as B, pysym as S, pytypes as T, mterm, mir
from ..native import Native
TECHNIQUE = 'interprocedural option dataflow: Python dictionaries vs deserialiser MIR, plus native option liveness'
RULE = ("Every options dictionary a builder passes on any option path is compared with the options structure the native routine deserialises (names, types, requiredness read "
        "from the generated deserialiser's MIR): every key declared, every required key present, every value of an admissible kind, a key named like a parameter carries that "
        "parameter, no key carries another key's parameter.  Every option filled from a caller's parameter is read by the native routine, and every option is handed to callee parameters of its own name, not another option's.")
TRUST = ["parameter annotations state the Python types callers pass", "an option that is read influences the result (constant folding of a read value is not analysed)"]

# documented: "This won't be used if weights are used" (lin_reg_report, std_err)
DOCUMENTED_UNUSED = {("pl_wls_report", "std_err"), ("pl_wls_report_f32", "std_err")}

_OK = {"bool": {"bool"}, "int": {"int", "bool"}, "float": {"float", "int"}, "str": {"str"}, "list": {"list"}, "dict": {"dict"}}

def run(ctx, rep):
    N = ctx.native
    clos = {B.short(q): c for q, (c, *_ ) in B.run_all(ctx).items()}
    wanted = {}
    for u in B.uses(ctx):
        if u.symbol is None or u.symbol not in N.plugins: continue
        p = N.plugins[u.symbol]
        kw = u.native.kwargs
        if kw is None:
            rep.undecide("%s -> %s" % (u.fn, u.symbol), "options are not a dictionary built on this path")
            continue
        keys = {k.v: v for k, v in kw if isinstance(k, S.Const)}
        rep.count("option dictionaries")
        decl = {f.name: f for f in p.kwargs.fields} if p.kwargs else {}
        clo = clos.get(u.fn)
        params = param_names(clo)
        for k, v in keys.items():
            key = "%s -> %s(%s)" % (u.fn, u.symbol, k)
            f = decl.get(k)
            if not rep.check(key + ": declared", f is not None, "option '%s' is passed to %s, which does not declare it; it is silently ignored" % (k, u.symbol)): continue
            kinds = T.value_kind(v, u.path, clo, ctx.pkg)
            if kinds is None or "other" in kinds: rep.check(key + ": kind", None, "kind of %s not known" % S.show(v)[:60])
            else:
                want = set(_OK.get(f.ty, kinds))
                if f.optional: want.add("none")
                bad = kinds - want
                rep.check(key + ": kind", not bad, "option '%s' of %s expects %s but is given a value that can be %s (%s)" % (k, u.symbol, f.rust_ty, "/".join(sorted(bad)), S.show(v)[:60]))
                if f.ty == "int" and isinstance(v, S.Const) and isinstance(v.v, int) and v.v < 0 and f.rust_ty.strip("std::option<>").startswith("u"):
                    rep.fail(key + ": negative", "option '%s' is unsigned but given %d" % (k, v.v))
            d = S.deps(v)
            if d & params or k in params: wanted.setdefault((u.symbol, k), set()).add(u.fn)
            if k in params:
                tested = any(k in S.deps(c) for c, _ in u.path.conds)
                # the parameter itself, something computed from it, or a constant chosen after testing it
                rep.check(key + ": carried", k in d or tested, "option '%s' carries %s instead of parameter '%s' of %s" % (k, S.show(v)[:60], k, u.fn))
            others = {o for o in decl if o != k and o in params}
            if isinstance(v, S.Sym) and v.name in others and k in params:
                rep.fail(key + ": swapped", "option '%s' of %s is given parameter '%s'" % (k, u.symbol, v.name))
        for n, f in decl.items():
            if f.required: rep.check("%s -> %s(%s): supplied" % (u.fn, u.symbol, n), n in keys, "%s requires option '%s' but %s does not supply it on a path" % (u.symbol, n, u.fn))
    rep.floor("option dictionaries", 60)
    live(ctx, rep, wanted)

def param_names(clo):
    a = clo.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

def live(ctx, rep, wanted):
    """every option a builder fills from a caller's parameter is read, and goes to parameters of its own name"""
    N = ctx.native
    U = Uses(ctx)
    for s, p in sorted(N.plugins.items()):
        if not p.kwargs: continue
        used, binds = U.of(p.body, p.kw_arg)
        names = {f.rust for f in p.kwargs.fields} | {f.name for f in p.kwargs.fields}
        for idx, cal, pn in sorted(binds, key=str):
            fld = field_at(p, idx)
            if fld is None: continue
            rep.count("option to callee bindings")
            rep.check("%s(%s): handed to %s" % (s, fld.name, cal), pn not in names or pn in (fld.rust, fld.name),
                      "native routine %s hands option '%s' to parameter '%s' of %s" % (s, fld.name, pn, cal))
        for f in p.kwargs.fields:
            if (s, f.name) not in wanted or (s, f.name) in DOCUMENTED_UNUSED: continue
            rep.count("caller-set options")
            rep.check("%s(%s): read" % (s, f.name), f.index in used, "option '%s' is set by the caller (%s) but native routine %s never uses it" % (f.name, ", ".join(sorted(wanted[(s, f.name)])), s))
    rep.floor("caller-set options", 40)

class Uses:
    """fields of a structure argument that a function (with closures and callees) uses"""
    def __init__(self, ctx): self.ctx, self.memo = ctx, {}
    def of(self, fn, arg):
        k = (fn.name, arg)
        if k in self.memo: return self.memo[k]
        self.memo[k] = (set(), set())
        used, binds = set(), set()
        root = ("arg", fn.canon, arg)
        seen = {}
        for g in self.ctx.w.family(fn):
            v = self.ctx.w.view(g)
            for b in g.blocks.values():
                if b.cleanup: continue
                ops = [o for st in b.stmts for o in st.rv.ops]
                if b.term.op is not None: ops.append(b.term.op)
                if b.term.kind == "call":
                    for i, a in enumerate(b.term.args):
                        t = v.term(a)
                        ops.append(a)
                        fo = opt_of(t, root)
                        for cal in self.ctx.prog.resolve(b.term.callee) if b.term.callee else ():
                            if i >= len(cal.args): continue
                            if fo is not None:
                                pn = name_of_arg(cal, cal.args[i][0])
                                if pn: binds.add((fo, cal.canon, pn))
                            if t == root:
                                u2, b2 = self.of(cal, cal.args[i][0])
                                used |= u2; binds |= b2
                for o in ops: collect(v.term(o), root, used, seen)
        self.memo[k] = (used, binds)
        return used, binds

def collect(t, root, used, seen):
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen: continue
        seen[id(x)] = x
        if x and x[0] == "field" and len(x) == 3 and x[1] == root: used.add(x[2])
        st += [y for y in x if isinstance(y, tuple)]

def opt_of(t, root):
    if t[0] == "field" and t[1] == root: return t[2]
    return None

def field_at(p, i):
    for f in p.kwargs.fields:
        if f.index == i: return f
    return None

def name_of_arg(fn, local):
    for n, pls in fn.debug.items():
        if any(x == "_%d" % local for x in pls): return n
    return None
