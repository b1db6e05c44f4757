"""Every place the Python layer asks the query engine to run a native routine, on every option path."""
from __future__ import annotations
import ast
from dataclasses import dataclass
from . import pysym as S

SKIP_MODULES = (".balltree",)

@dataclass
class Use:
    fn: str            # analysed function, e.g. exprs.string.str_leven
    path: object
    native: object
    @property
    def symbol(self):
        s = self.native.symbol
        return s.v if isinstance(s, S.Const) and isinstance(s.v, str) else None
    @property
    def flags(self): return {n: (t.v if isinstance(t, S.Const) else None) for n, t in self.native.flags}

def short(qual): return qual[len(S.PKG) + 1:] if qual.startswith(S.PKG + ".") else qual

def all_functions(pkg):
    """(Closure, is_public) of every module level function and method"""
    out = []
    for mn, m in sorted(pkg.mods.items()):
        if any(x in mn for x in SKIP_MODULES): continue
        for n, f in m.functions().items():
            out.append(S.Closure(f, m))
        for n, c in m.classes().items():
            cr = S.ClassRef(c, m)
            for x in c.body:
                if isinstance(x, (ast.FunctionDef,)):
                    out.append(S.Closure(x, m, cls=cr))
    return out

def run_all(ctx):
    """{qual: (Closure, [Path], truncated, error)}"""
    def go():
        it = S.Interp(ctx.pkg)
        out = {}
        for clo in all_functions(ctx.pkg):
            try:
                ps = it.run(clo)
                out[clo.qual] = (clo, ps, it.truncated, None)
            except Exception as e:
                out[clo.qual] = (clo, [], True, "%s: %s" % (type(e).__name__, e))
        return out
    return ctx.cached("run_all", go)

def uses(ctx):
    def go():
        out = []
        for q, (clo, ps, tr, err) in run_all(ctx).items():
            seen = set()
            for p in ps:
                for n in S.natives(p):
                    out.append(Use(short(q), p, n))
        return out
    return ctx.cached("uses", go)

def public_names(ctx):
    """{qual short name} of functions exported by a module's __all__ (or, with no __all__, not starting with _)"""
    out = set()
    for mn, m in ctx.pkg.mods.items():
        allv = m.dunder_all()
        for n in m.functions():
            if (allv is not None and n in allv) or (allv is None and not n.startswith("_")): out.add(short(mn + "." + n))
    return out
