"""Normal forms of the native routines, shared by the checks of native code."""
from __future__ import annotations
import sys
from . import msym, native, nf
from .msym import T, mk, walk, show
from .nf import NF, Poly, TooBig, holes, size

sys.setrecursionlimit(20000)
OPAQUE = {"split_offsets", "series_to_row_major_slice"}
SKIP = ("arkadia::", "linalg::", "stats_utils::", "str_ext::snowball", "<arkadia")

def inline(f): return not f.canon.startswith(SKIP)

class Plugs:
    def __init__(self, nat=None, opaque=OPAQUE, max_paths=1500, erase32=False, inl=inline):
        self.n = nat or native.Native()
        self.opaque, self.max_paths, self.erase32, self.inl = opaque, max_paths, erase32, inl
    def nf(self, **kw):
        d = dict(opaque=self.opaque, max_paths=self.max_paths, erase32=self.erase32, inline=self.inl); d.update(kw)
        return NF(self.n.prog, self.n.w, **d)
    def fn(self, name):
        l = [f for f in self.n.prog.fns.values() if f.canon == name or f.canon.endswith("::" + name)]
        return l[0] if len(l) == 1 else None

def num(q, t):
    try: return q.topoly(t)
    except TooBig: return None

def foreign(t):
    """heads the engine could not look into"""
    return {x.k for x in walk(t) if x.k in ("lam?", "closure?", "undef", "ambiguous", "never", "unknown")}

def stream(t):
    if t.k != "call" or not t.a[0].startswith("it::"): return None
    return (t.a[0], t.a[0] == "it::iter" and len(t.a) == 3 and t.a[2].k == "struct")

def judge(a, b, recs, small=40, most=8):
    """('same'|'differs'|'unclear', holes): two normal forms differ for certain when the differences are a few small terms of a kind the engine reads"""
    if a is b: return "same", []
    hs = holes(a, b, recs)
    if not hs: return "same", hs
    if len(hs) > most: return "unclear", hs
    for x, y in hs:
        if not (isinstance(x, T) and isinstance(y, T)): return "unclear", hs
        if size(x) > small or size(y) > small: return "unclear", hs
        if foreign(x) or foreign(y): return "unclear", hs
        if (x.k == "rec") != (y.k == "rec"): return "unclear", hs
        if stream(x) != stream(y): return "unclear", hs      # another way of going through the elements
    return "differs", hs

def holestr(hs, n=3):
    return "; ".join(f"{show(x, 6)[:160]}  vs  {show(y, 6)[:160]}" for x, y in hs[:n])
