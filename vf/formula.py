"""shared body of the reference-definition checks"""
from . import refs

def decide(ctx, rep, mods, floor_functions, floor_combos, skip=(), cmp=None):
    """mods: {reference module: package module}; counts what was compared and names what has no reference"""
    for name, where in mods.items():
        refs.run_module(ctx, rep, name, where, skip=skip, cmp=cmp)
        m = refs.load(name)
        have = set(m.functions())
        impl = ctx.pkg.mods.get(where)
        if impl is not None:
            rest = sorted(f for f in impl.functions() if not f.startswith("_") and f not in have)
            if rest: rep.notes.append("%s: no reference for %s" % (where, ", ".join(rest)))
    rep.floor("functions", floor_functions)
    rep.floor("option combinations", floor_combos)
