"""The native side's contracts, read from MIR: which expression routines the extension exports, which options each
deserialises (name, type, required?), which positional inputs it reads and as what, and how calls flow with arguments
substituted (context-sensitive walk)."""
from __future__ import annotations
import re
from dataclasses import dataclass, field
from . import mir, mterm
from .mterm import last_of, subterms
from .mir import Const

@dataclass
class KwField:
    name: str        # key in the options dictionary
    rust: str        # struct field
    index: int
    ty: str          # bool | int | float | str | [..]
    rust_ty: str
    optional: bool   # Option<..>
    required: bool   # absent key is an error

@dataclass
class Kwargs:
    ty: str
    fields: list
    def by_name(self, n):
        for f in self.fields:
            if f.name == n: return f
        return None

@dataclass
class Plugin:
    symbol: str
    body: object            # mir.Fn
    field_fn: object
    kwargs: object          # Kwargs or None
    kw_arg: int = None
    ctx_arg: int = None

def rust_kind(t):
    t = t.strip()
    m = re.match(r"^std::option::Option<(.*)>$", t)
    opt = False
    if m: t, opt = m.group(1), True
    if t == "bool": k = "bool"
    elif re.match(r"^[iu](8|16|32|64|128|size)$", t): k = "int"
    elif t in ("f32", "f64"): k = "float"
    elif t.endswith("string::String") or t in ("&str", "str"): k = "str"
    elif t.startswith("std::vec::Vec<"): k = "list"
    elif "HashMap<" in t or "BTreeMap<" in t: k = "dict"
    else: k = "other:" + t
    return k, opt

class Native:
    def __init__(self, prog=None):
        self.prog = prog or mir.load()
        self.w = mterm.World(self.prog)
        self._kw()
        self.plugins = {}
        bodies, fields = {}, {}
        for f in self.prog.fns.values():
            m = re.search(r"::_polars_plugin_(\w+?)::\{closure#0\}::(\w+)$", f.name)
            if m and m.group(1) == m.group(2): bodies[m.group(1)] = f
            m = re.search(r"::_polars_plugin_field_(\w+)$", f.name)
            if m: fields[m.group(1)] = f
        exported = {m.group(1) for f in self.prog.fns.values() for m in [re.search(r"::_polars_plugin_((?!field_)\w+)$", f.name)] if m}
        self.exported = exported
        for s, f in bodies.items():
            kw, kwi, cx = None, None, None
            for i, t in f.args[1:]:
                if t.endswith("CallerContext"): cx = i
                elif t in self.kwargs: kw, kwi = self.kwargs[t], i
            self.plugins[s] = Plugin(s, f, fields.get(s), kw, kwi, cx)

    # ---------------- option structs
    def _kw(self):
        self.kwargs = {}
        for f in self.prog.fns.values():
            if not f.name.endswith("::visit_map"): continue
            m = re.match(r"^std::result::Result<([\w:]+), ", f.ret)
            if not m: continue
            ty = m.group(1)
            names, types, req = [], {}, {}
            cur = None
            for bid in sorted(f.blocks):
                b = f.blocks[bid]
                if b.cleanup or b.term.kind != "call" or not b.term.callee: continue
                c = b.term.callee
                l = last_of(c)
                if l == "duplicate_field":
                    cur = b.term.args[0].str
                    if cur not in names: names.append(cur)
                elif l == "missing_field":
                    mm = re.search(r"missing_field::<'_, (.*), <__A as", c)
                    req[b.term.args[0].str] = mm.group(1) if mm else "?"
            # each next_value::<T> is stored into the Option local whose is_some guards the duplicate_field of its name
            for b, t in f.calls():
                if t.callee and last_of(t.callee) == "duplicate_field":
                    nm = t.args[0].str
                    for p in f.preds()[b.id]:
                        sw = f.blocks[p].term
                        if sw.kind == "switch":
                            other = [x for x in sw.targets if x != b.id]
                            for o in other:
                                nv = self._next_value(f, o)
                                if nv: types[nm] = nv
            order = self._order(f, names)
            fields = []
            rust = self._struct_fields(f, ty)
            for i, n in enumerate(order):
                rt = types.get(n) or req.get(n) or "?"
                k, opt = rust_kind(rt)
                r = n in req and not rt.startswith("std::option::Option<")
                fields.append(KwField(n, rust[i] if i < len(rust) else n, i, k, rt, opt, r))
            if fields: self.kwargs[ty] = Kwargs(ty, fields)

    def _next_value(self, f, bid, hops=6):
        while hops and bid is not None:
            b = f.blocks[bid]
            if b.term.kind == "call" and b.term.callee and last_of(b.term.callee) == "next_value":
                m = re.search(r"next_value::<(.*)>$", b.term.callee)
                return m.group(1)
            if len(b.term.targets) != 1: return None
            bid = b.term.targets[0]
            hops -= 1
        return None

    def _order(self, vm, names):
        pre = vm.name.rsplit("::deserialize::", 1)[0]
        for f in self.prog.fns.values():
            if f.name.endswith("::visit_str") and f.name.startswith(pre + "::deserialize::"):
                o = []
                v = []
                for b, t in f.calls():
                    if t.callee and last_of(t.callee) == "eq":
                        for a in t.args:
                            if isinstance(a, Const) and a.str is not None: v.append(a.str)
                if set(v) == set(names): return v
        return names

    def _struct_fields(self, vm, ty):
        for b in vm.blocks.values():
            for s in b.stmts:
                if s.rv.kind == "agg" and s.rv.data and s.rv.data[0] == "struct" and mir.strip_generics(s.rv.data[1]).split("::")[-1] == ty.split("::")[-1]:
                    return list(s.rv.data[2])
        return []

    # ---------------- context-sensitive walk
    def walk(self, f, bind=None, depth=6, stack=()):
        """every call made by f, its closures and the local functions it calls, arguments expressed over f's arguments.
        yields Site(fn, block, term, args, path)"""
        if depth < 0 or f.name in stack: return
        stack = stack + (f.name,)
        for g in self.w.family(f):
            v = self.w.view(g)
            for b, t in g.calls():
                args = tuple(substitute(v.term(a), bind) for a in t.args)
                yield Site(g, b, t, args, stack)
                if t.callee is None: continue
                for callee in self.prog.resolve(t.callee):
                    if callee.name in stack: continue
                    nb = {(callee.canon, i): a for (i, _), a in zip(callee.args, args)}
                    yield from self.walk(callee, nb, depth - 1, stack)
                for gf in self._fn_values(t):
                    if gf.name not in stack: yield from self.walk(gf, {}, depth - 1, stack)

    def _fn_values(self, t):
        out = []
        for a in t.args:
            if isinstance(a, Const): out += self.w.fnref(a)
        return out

    def inputs_reads(self, plugin):
        """{position: set of accepted dtypes or {'any'}} for fixed positions, plus rest-from positions"""
        root = ("arg", plugin.body.canon, 1)
        reads, rest = {}, set()
        sliceoff = lambda t: _slice_of(t, root)
        for s in self.walk(plugin.body):
            for t in s.args:
                for x in subterms(t):
                    p = _input_pos(x, root)
                    if p is not None:
                        if p[0] == "pos": reads.setdefault(p[1], set())
                        elif p[0] == "from": rest.add(p[1])
            l = last_of(s.term.callee) if s.term.callee else ""
            if l in _ACCESS and s.args:
                a = s.args[0]
                for alt in (a[1] if a[0] == "phi" else (a,)):
                    p = _input_pos(alt, root)
                    if p is not None and p[0] == "pos" and ("downcast" in s.term.callee or "Series" in s.term.callee or "SeriesTrait" in s.term.callee):
                        reads.setdefault(p[1], set()).add(_ACCESS[l])
            if l in ("cast", "dtype", "cast_with_options", "strict_cast") and s.args:
                p = _input_pos(s.args[0], root)
                if p is not None and p[0] == "pos": reads.setdefault(p[1], set()).add("any" if l != "dtype" else "dispatch")
        return reads, rest

@dataclass
class Site:
    fn: object
    block: object
    term: object
    args: tuple
    stack: tuple

_ACCESS = {"f64": "Float64", "f32": "Float32", "i8": "Int8", "i16": "Int16", "i32": "Int32", "i64": "Int64", "i128": "Int128", "u8": "UInt8",
           "u16": "UInt16", "u32": "UInt32", "u64": "UInt64", "bool": "Boolean", "str": "String", "list": "List", "struct_": "Struct",
           "categorical": "Categorical", "array": "Array", "binary": "Binary", "datetime": "Datetime", "date": "Date"}

def _const_usize(t):
    m = re.match(r"^(\d+)_usize$", t[1]) if t[0] == "const" else None
    return int(m.group(1)) if m else None

def _input_pos(t, root):
    """('pos', k) when t is input k, ('from', k) when t is the slice of inputs from k"""
    if t == root: return ("from", 0)
    if t[0] == "index":
        base = _input_pos(t[1], root)
        k = _const_usize(t[2])
        if base and base[0] == "from" and k is not None: return ("pos", base[1] + k)
        if base and base[0] == "from": return ("any", base[1])
    if t[0] == "call" and last_of(t[1]) == "index" and len(t[2]) == 2:
        base = _input_pos(t[2][0], root)
        if base and base[0] == "from":
            r = t[2][1]
            if r[0] == "agg" and "RangeFrom" in r[1][1]:
                k = _const_usize(r[2][0])
                if k is not None: return ("from", base[1] + k)
            if r[0] == "agg" and "Range" in r[1][1] and "RangeTo" not in r[1][1] and r[2]:
                k = _const_usize(r[2][0])
                if k is not None: return ("from", base[1] + k)
            k = _const_usize(r)
            if k is not None: return ("pos", base[1] + k)
    return None

def _slice_of(t, root): return _input_pos(t, root)

_subst_cache = {}
def substitute(t, bind):
    """replace arguments by the terms bound to them"""
    if not bind: return t
    memo = {}
    def go(x):
        if not isinstance(x, tuple) or not x: return x
        k = id(x)
        if k in memo: return memo[k][1]
        if x[0] == "arg" and len(x) == 3:
            r = bind.get((x[1], x[2]), x)
        else:
            r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
            if r[0] == "field" and len(r) == 3: r = _refield(r)
            if r == x: r = x
        memo[k] = (x, r)
        return r
    return go(t)

def _refield(t):
    a, n = t[1], t[2]
    if a[0] == "agg" and a[1][0] in ("tuple", "struct", "variant") and n < len(a[2]): return a[2][n]
    if a[0] == "wrap" and n == 0: return a[1]
    return t
