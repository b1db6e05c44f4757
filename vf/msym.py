"""Path-sensitive abstract interpreter over MIR.

A function is interpreted on unknown arguments; every branch on an unknown is explored both ways (decisions are kept
consistent along a path), local functions and closures are entered, foreign calls stay terms.  Mutation through `&mut` is
made functional: the pointed-to variable becomes a term `mut(call, old value, ...)`.  A loop is summarised: at its header
every variable it changes becomes an unknown `lv(loop, variable)`, and each path back to the header is recorded as one
transition.  Terms are hash-consed, so equality is identity."""
from __future__ import annotations
import os, re
from . import mir, mterm, cfg
from .mir import Place, Const, Assign
from .mterm import last_of

class T:
    __slots__ = ("k", "a")
    def __init__(self, k, a): self.k, self.a = k, a
    def __repr__(self): return show(self, 8)

_tab = {}
def mk(k, *a):
    key = (k,) + a
    r = _tab.get(key)
    if r is None: r = _tab[key] = T(k, a)
    return r

TRUE, FALSE, UNIT = mk("bool", True), mk("bool", False), mk("tuple")
def integer(n): return mk("int", n)
NONE = mk("var", "None")
def some(x): return mk("var", "Some", x)
def ok(x): return mk("var", "Ok", x)

def kids(t):
    st = list(t.a)[::-1]
    while st:
        a = st.pop()
        if isinstance(a, T): yield a
        elif isinstance(a, tuple): st += a[::-1]
def walk(t):
    """every subterm, once"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st += x; continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        yield x
        st += [y for y in x.a if isinstance(y, (T, tuple))]

def show(t, d=7):
    if not isinstance(t, T): return str(t) if not isinstance(t, tuple) else "(%s)" % ", ".join(show(x, d) for x in t)
    if d == 0: return "…"
    k, a = t.k, t.a
    S = lambda x: show(x, d - 1)
    if k in ("int", "bool", "float"): return str(a[0])
    if k == "str": return repr(a[0])
    if k == "const": return str(a[0])[-40:]
    if k == "arg": return "arg%s" % a[-1]
    if k == "call": return "%s(%s)" % ("::".join(a[0].split("::")[-2:]), ", ".join(S(x) for x in a[2:]))
    if k == "mut": return "%s!(%s)" % ("::".join(a[0].split("::")[-2:]), ", ".join(S(x) for x in a[3:]))
    if k == "bin": return "(%s %s %s)" % (S(a[1]), a[0], S(a[2]))
    if k == "fld": return "%s.%s" % (S(a[0]), a[1])
    if k == "pay": return "%s?" % S(a[0])
    if k == "idx": return "%s[%s]" % (S(a[0]), S(a[1]))
    if k == "var": return "%s(%s)" % (a[0].split("::")[-1], ", ".join(S(x) for x in a[1:]))
    if k == "lv": return "lv(%s)" % (a[1],)
    if k == "closure": return "closure@%s" % a[0].split("/")[-1]
    if k == "ite": return "if %s {%s} else {%s}" % (S(a[0]), S(a[1]), S(a[2]))
    return "%s(%s)" % (k, ", ".join(S(x) for x in a))

class Frame:
    __slots__ = ("fn", "loc", "site")
    def __init__(self, fn, site): self.fn, self.loc, self.site = fn, {}, site
    def __repr__(self): return "F:%s" % (self.fn.canon.split("::")[-1] if self.fn else "heap")

class End(Exception):
    def __init__(self, outcome, value=None, loop=None): self.outcome, self.value, self.loop = outcome, value, loop
class Budget(Exception): pass

class Path:
    def __init__(self, conds, outcome, value, events, loop=None, trans=None, start=0, loops=()):
        self.conds, self.outcome, self.value, self.events = conds, outcome, value, events
        self.loop, self.trans, self.start, self.loops = loop, trans, start, loops
    def __repr__(self): return "<%s %s | %s>" % (self.outcome, show(self.value, 6) if self.value is not None else "", " & ".join(("" if b is True else "!" if b is False else "%s=" % (b,)) + show(c, 4) for c, b in self.conds))

class Event:
    __slots__ = ("key", "callee", "args", "fn", "block", "nconds", "result", "depth", "loops")
    def __init__(self, key, callee, args, fn, block, nconds, depth, loops): self.key, self.callee, self.args, self.fn, self.block, self.nconds, self.depth, self.result, self.loops = key, callee, args, fn, block, nconds, depth, None, loops

_ERASE = re.compile(r"^(deref|deref_mut|as_ref|as_mut|borrow|borrow_mut|clone|cloned|copied|as_slice|as_mut_slice|to_owned|as_str|into_owned|as_deref|as_deref_mut|by_ref|into_boxed_slice|into_inner|as_ptr|as_mut_ptr|reborrow|rb|rb_mut|as_dyn|as_any|to_string|as_bytes|from_residual|branch)$")
_TYPED = {"collect", "sum", "product", "parse", "default", "try_into", "try_from", "zero", "one", "min_value", "max_value", "infinity", "neg_infinity", "nan", "epsilon", "sample", "gen", "gen_range", "random", "cast", "unpack", "to_ndarray", "from_iter", "from_iter_trusted_length", "collect_ca", "full", "full_null", "get_dtype", "from_chunk_iter", "from_slice", "from_vec", "collect_into_vec", "to_vec", "into_series", "into_column"}
_BIN = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}
_MATRIX = re.compile(r"\bfaer::|\bMat(Ref|Mut)?<|\bDiag(Ref)?<")
_COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne"}

_opt_re = re.compile(r"^(?:std|core)::option::Option(::|<|$)")
_res_re = re.compile(r"^(?:std|core)::result::Result(::|<|$)")
_INTS = re.compile(r"^[iu](8|16|32|64|128|size)$")

def erase_closures(s): return re.sub(r"\{closure@[^}]*\}", "{closure}", s)

def promoted_names(prog):
    """the name a generic routine uses for its promoted constant -> the name it is defined under"""
    if not hasattr(prog, "_promoted"):
        out = {}
        for f in list(prog.fns.values()) + list(prog.consts.values()):
            for b in f.blocks.values():
                for x in [s.text for s in b.stmts] + [getattr(b.term, "text", "") or ""]:
                    for m in re.finditer(r"const ([^;]*?::promoted\[\d+\])", x):
                        d = f.name + "::" + m.group(1).split("::")[-1]
                        if m.group(1) not in prog.consts and d in prog.consts: out[m.group(1)] = d
        prog._promoted = out
    return prog._promoted

class Interp:
    def __init__(self, prog, world=None, opaque=(), max_paths=3000, max_depth=10, inline=None, max_steps=400000):
        self.prog, self.w = prog, world or mterm.World(prog)
        self.opaque, self.max_paths, self.max_depth, self.max_steps = set(opaque), max_paths, max_depth, max_steps
        self.inline = inline
        self._keys, self._enum = {}, None
        self.invariant = {}      # loop site -> vars that no transition changes
    # ------------------------------------------------ running
    def run(self, fn, args=None, facts=None, refine=True):
        """all paths of fn"""
        for _ in range(6):
            ps = self._explore(lambda: self._top(fn, args), facts)
            if not refine or self.truncated: break
            new = self._refine(ps)
            if not new: break
        return ps
    def _top(self, fn, args):
        if args is None: args = [mk("arg", fn.canon, i) for i, _ in fn.args]
        return self.call_fn(fn, args, "top")
    def _refine(self, ps):
        changed, seen = {}, set()
        for p in ps:
            if p.outcome != "back": continue
            site = p.loop.a[0]
            seen.add(site)
            for v, x in p.trans.items():
                if x is not mk("lv", p.loop, v): changed.setdefault(site, set()).add(v)
        new = False
        for p in ps:
            for l in p.loops:
                site = l.a[0]
                inv = {v for v, _ in l.a[1]} - changed.get(site, set())
                if inv - self.invariant.get(site, set()):
                    self.invariant.setdefault(site, set()).update(inv); new = True
        return new
    def _explore(self, go, facts=None):
        out, stack = [], [[]]
        self.truncated = False
        while stack:
            pre = stack.pop()
            if len(out) >= self.max_paths: self.truncated = True; break
            self.pre, self.taken, self.alts = pre, [], []
            self.facts, self.conds, self.events, self.steps = dict(facts or {}), [], [], 0
            self.neq = {}
            self.frames, self.headers, self.depth = [], {}, 0
            self.loopstack, self.allloops = [], []
            try:
                v = go()
                out.append(Path(self.conds, "return", v, self.events, loops=tuple(self.allloops)))
            except End as e:
                if e.outcome == "back":
                    loop, frames, start = e.loop
                    tr = {v: frames[v[0]].loc.get(v[1]) if isinstance(v[0], str) is False else None for v in ()}
                    trans = {}
                    for v, fr in frames.items(): trans[v] = fr.loc.get(v[1], mk("undef"))
                    out.append(Path(self.conds, "back", None, self.events, loop=loop, trans=trans, start=start, loops=tuple(self.allloops)))
                else: out.append(Path(self.conds, e.outcome, e.value, self.events, loops=tuple(self.allloops)))
            except Budget:
                self.truncated = True
                out.append(Path(self.conds, "unknown", None, self.events, loops=tuple(self.allloops)))
            for i in range(len(pre), len(self.taken)):
                for alt in self.alts[i]: stack.append(self.taken[:i] + [alt])
        return out
    def choose(self, key, options=(True, False)):
        """decide the unknown `key`; consistent along the path"""
        if key in self.facts: return self.facts[key]
        i = len(self.taken)
        no = self.neq.get(key, ())
        options = [o for o in options if o not in no]
        if i < len(self.pre): v = self.pre[i]; alts = ()
        else: v, alts = options[0], options[1:]
        self.taken.append(v); self.alts.append(alts)
        self.facts[key] = v
        self.conds.append((key, v))
        self.learn(key, v)
        return v
    def learn(self, key, v):
        # a string equals at most one constant
        if v is True and key.k == "bin" and key.a[0] == "Eq":
            a, b = key.a[1:]
            c, o = (a, b) if a.k in ("int", "str", "float") else (b, a)
            if c.k in ("int", "str", "float"): self.facts[mk("is", o)] = c
    def truth(self, t):
        """decide a boolean term"""
        if t.k == "bool": return t.a[0]
        if t.k == "not": return not self.truth(t.a[0])
        if t.k == "bin" and t.a[0] in ("BitAnd", "BitOr") and False: pass
        if t.k == "bin" and t.a[0] == "Ne": return not self.truth(self.bin("Eq", t.a[1], t.a[2]))
        if t.k == "has": return self.has(t.a[0])
        if t.k == "bin" and t.a[0] == "Eq":
            a, b = t.a[1:]
            c, o = (a, b) if a.k in ("int", "str", "float") else (b, a)
            if c.k in ("int", "str", "float"):
                k = self.facts.get(mk("is", o))
                if k is not None: return k is c
        return self.choose(t)
    def has(self, v):
        """is an Option Some / a Result Ok"""
        if v.k == "var":
            n = v.a[0].split("::")[-1]
            if n in ("Some", "Ok", "Continue"): return True
            if n in ("None", "Err", "Break"): return False
        if v.k == "ite":
            return self.has(v.a[1] if self.truth(v.a[0]) else v.a[2])
        return self.choose(mk("has", v))
    def pay(self, v):
        if v.k == "var" and v.a[0].split("::")[-1] in ("Some", "Ok", "Continue") and len(v.a) > 1: return v.a[1]
        return mk("pay", v)
    # ------------------------------------------------ places
    def read_local(self, fr, l):
        v = fr.loc.get(l)
        return v if v is not None else mk("undef", fr.fn.locals.get(l, "") if fr.fn else "")
    def deref(self, v):
        while v.k == "ref":
            f, l, pr = v.a
            v = self.project(f, self.read_local(f, l), pr)
        return v
    def project(self, fr, v, proj):
        for x in proj:
            k = x[0]
            if k == "deref":
                if v.k == "ref": f, l, pr = v.a; v = self.project(f, self.read_local(f, l), pr)
                continue
            if v.k == "ref" and k != "deref":
                if k in ("f",): continue        # pointer wrappers (Box, NonNull): the pointer itself
                v = self.deref(v)
            if k == "as": v = self.downcast(v, x[1])
            elif k == "f": v = self.field(v, x[1])
            elif k == "idx": v = self.index(v, self.val(self.read_local(fr, x[1])))
            elif k == "cidx":
                if not x[2] and v.k == "array" and x[1] < len(v.a): v = v.a[x[1]]
                else: v = mk("idx", v, integer(-x[1] if x[2] else x[1]))
            elif k == "sub": v = mk("subslice", v)
        return v
    def downcast(self, v, name):
        if name in ("Some", "Ok", "Continue"):
            if v.k == "cf": return mk("as", v.a[0], "Ok")
            return mk("as", v, "Ok")
        if name in ("Break",) and v.k == "cf": return mk("as", v.a[0], "Break")
        return mk("as", v, name)
    def field(self, v, n):
        if v.k == "as":
            b, name = v.a
            if b.k == "ite": b = b.a[1] if self.truth(b.a[0]) else b.a[2]
            if name == "Ok": return self.pay(b) if n == 0 else mk("fld", v, n)
            if name == "Break": return mk("residual", b)
            if b.k == "var": return b.a[1 + n] if 1 + n < len(b.a) else mk("fld", v, n)
            if name == "Err": return mk("err", b)
            return mk("fld", v, n)
        if v.k in ("tuple", "array") and n < len(v.a): return v.a[n]
        if v.k == "struct" and n + 1 < len(v.a): return v.a[n + 1]
        if v.k == "closure": return v.a[1][n] if n < len(v.a[1]) else mk("fld", v, n)
        if v.k == "upd": return v.a[2] if v.a[1] == n else self.field(v.a[0], n)
        if v.k == "var" and 1 + n < len(v.a): return v.a[1 + n]
        return mk("fld", v, n)
    def index(self, v, i):
        if i.k == "int" and v.k == "array" and i.a[0] < len(v.a): return v.a[i.a[0]]
        if v.k == "repeat": return v.a[0]
        if v.k == "store" and v.a[1] is i: return v.a[2]
        return mk("idx", v, i)
    def val(self, v):
        """value behind references"""
        return self.deref(v) if v.k == "ref" else v
    def read(self, fr, p):
        return self.project(fr, self.read_local(fr, p.local), p.proj)
    def target(self, fr, p):
        """(frame, local, projection) a place denotes, references followed"""
        f, l, pr = fr, p.local, ()
        for x in p.proj:
            if x[0] == "deref":
                v = self.project(f, self.read_local(f, l), pr)
                if v.k == "ref": f, l, pr = v.a
                continue
            if x[0] == "f":
                v = self.project(f, self.read_local(f, l), pr)
                if v.k == "ref" and not isinstance(v.a[2], str):
                    # field of a pointer wrapper
                    continue
            if x[0] == "idx": pr = pr + (("i", self.val(self.read_local(fr, x[1]))),)
            else: pr = pr + (x,)
        return f, l, pr
    def write(self, fr, p, v):
        f, l, pr = self.target(fr, p)
        f.loc[l] = self.update(f, f.loc.get(l, mk("undef", "")), pr, v)
    def update(self, fr, base, pr, v):
        if not pr: return v
        x, rest = pr[0], pr[1:]
        if x[0] == "deref": return self.update(fr, base, rest, v)
        if x[0] == "as": return self.update(fr, base, rest, v)
        if x[0] == "f":
            n = x[1]
            inner = self.update(fr, self.field(base, n), rest, v)
            if base.k == "tuple" and n < len(base.a): return mk("tuple", *[inner if i == n else y for i, y in enumerate(base.a)])
            if base.k == "struct" and n + 1 < len(base.a): return mk("struct", base.a[0], *[inner if i == n else y for i, y in enumerate(base.a[1:])])
            if base.k == "closure": return mk("closure", base.a[0], tuple(inner if i == n else y for i, y in enumerate(base.a[1])))
            if base.k == "upd" and base.a[1] == n: base = base.a[0]
            return mk("upd", base, n, inner)
        if x[0] in ("i", "idx"):
            i = x[1] if isinstance(x[1], T) else mk("opaque", str(x))
            return mk("store", base, i, self.update(fr, self.index(base, i), rest, v))
        return mk("upd", base, str(x), self.update(fr, mk("fld", base, str(x)), rest, v))
    # ------------------------------------------------ operands and rvalues
    def const(self, c):
        if c.int is not None: return integer(c.int)
        if c.bool is not None: return mk("bool", c.bool)
        if c.str is not None: return mk("str", c.str)
        if c.float is not None: return mk("float", c.float)
        t = c.text
        m = re.match(r"^\{closure@([^}]*)\}$", t)
        if m: return mk("closure", m.group(1), ())
        m = re.match(r"^'(.*)'$", t)
        if m: return mk("char", m.group(1))
        if t == "()": return UNIT
        m = re.match(r"^(?:std|core)::option::Option::<.*>::None$", t)
        if m: return NONE
        m = re.match(r"^\{static ([\w:]+): ", t)
        if m and m.group(1) in self.prog.consts and self.prog.consts[m.group(1)].kind == "static" and "::Cell<" not in t and "Mutex" not in t and "Lock<" not in t and "Atomic" not in t:
            b = self.promoted(m.group(1))
            if b is not None: return b
        if re.match(r"^(<|[a-z_]\w*::)", t):
            b = self.promoted(t)
            if b is not None: return b
            if self.prog.resolve(t): return mk("fn", t)
        m = re.match(r"^([if]\d+|usize|isize|u\d+)::(MAX|MIN|INFINITY|NEG_INFINITY|NAN|EPSILON)$", re.sub(r"(std|core)::(num::)?", "", t).replace("<impl ", "").replace(">", ""))
        if m: return mk("const", m.group(1) + "::" + m.group(2))
        return mk("const", erase_closures(t))
    def promoted(self, t):
        f = self.prog.consts.get(t) or self.prog.consts.get(promoted_names(self.prog).get(t))
        if f is None: return None
        key = ("promoted", t)
        if key in self._keys: return self._keys[key]
        self._keys[key] = None
        r = None
        if len(f.blocks) <= 4:
            fr = Frame(f, "const")
            try:
                b = f.blocks[min(f.blocks)]
                n = 0
                while n < 6:
                    for s in b.stmts: self.assign(fr, s)
                    if b.term.kind == "return": r = fr.loc.get(0); break
                    if b.term.kind == "goto": b = f.blocks[b.term.targets[0]]
                    else: break
                    n += 1
            except Exception: r = None
        if r is not None:
            r = self.snapshot(r)
        self._keys[key] = r
        return r
    def operand(self, fr, o):
        if isinstance(o, Const): return self.const(o)
        return self.read(fr, o)
    def bin(self, op, a, b):
        if op.endswith("WithOverflow"): return mk("tuple", self.bin(op[:-12], a, b), FALSE)
        if op.endswith("Unchecked"): op = op[:-9]
        if op == "Gt": op, a, b = "Lt", b, a
        elif op == "Ge": op, a, b = "Le", b, a
        if a.k == "int" and b.k == "int":
            x, y = a.a[0], b.a[0]
            if op in ("Add", "Sub", "Mul"): return integer({"Add": x + y, "Sub": x - y, "Mul": x * y}[op])
            if op in ("Lt", "Le", "Eq", "Ne"): return mk("bool", {"Lt": x < y, "Le": x <= y, "Eq": x == y, "Ne": x != y}[op])
        if op in ("Eq", "Ne") and a is b and a.k in ("int", "str", "bool", "char"): return mk("bool", op == "Eq")
        if op in ("Eq", "Ne") and a.k == b.k and a.k in ("str", "char", "bool"): return mk("bool", (a is b) == (op == "Eq"))
        if op == "Eq" and b.k == "bool": return a if b.a[0] else self.neg(a)
        if op == "Eq" and a.k == "bool": return b if a.a[0] else self.neg(b)
        if op == "Ne": return mk("not", self.bin("Eq", a, b))
        if op == "BitAnd":
            if a is TRUE: return b
            if b is TRUE: return a
            if a is FALSE or b is FALSE: return FALSE
        if op == "BitOr":
            if a is FALSE: return b
            if b is FALSE: return a
            if a is TRUE or b is TRUE: return TRUE
        if op in _COMM and order(b) < order(a): a, b = b, a
        if op in ("MatMul", "Concat") and b.k == "bin" and b.a[0] == op: return self.bin(op, self.bin(op, a, b.a[1]), b.a[2])
        return mk("bin", op, a, b)
    def neg(self, t):
        if t.k == "bool": return mk("bool", not t.a[0])
        if t.k == "not": return t.a[0]
        return mk("not", t)
    def rvalue(self, fr, s):
        rv = s.rv
        k = rv.kind
        if k == "use": return self.operand(fr, rv.ops[0])
        if k in ("ref", "addr"):
            p = rv.ops[0]
            if isinstance(p, Const): return self.const(p)
            if rv.data == "mut" or k == "addr":
                f, l, pr = self.target(fr, p)
                v = self.project(f, self.read_local(f, l), pr) if not any(x[0] == "i" for x in pr) else None
                if v is not None and v.k == "ref" and p.proj and p.proj[-1][0] == "deref": return v
                if any(x[0] == "i" for x in pr): return mk("ref", f, l, pr)
                return mk("ref", f, l, pr)
            v = self.read(fr, p)
            return v
        if k == "bin": return self.bin(rv.data, self.val(self.operand(fr, rv.ops[0])), self.val(self.operand(fr, rv.ops[1])))
        if k == "un":
            a = self.val(self.operand(fr, rv.ops[0]))
            return self.neg(a) if rv.data == "Not" else mk("un", rv.data, a)
        if k == "cast":
            a = self.operand(fr, rv.ops[0])
            kind = rv.data[1]
            if a.k in ("closure", "fn", "ref") or "Pointer" in kind or "Ptr" in kind or kind.startswith("Transmute"): return a
            ty = rv.data[0]
            if a.k == "int" and _INTS.match(ty): return a
            return mk("fcast" if kind == "FloatToFloat" else "cast", ty, a)
        if k == "agg":
            d = rv.data
            ops = tuple(self.operand(fr, o) for o in rv.ops)
            if d[0] == "closure": return mk("closure", d[1], ops)
            if d[0] == "tuple": return mk("tuple", *ops)
            if d[0] == "array": return mk("array", *ops)
            if d[0] == "variant":
                n = last_of(d[1])
                if n in ("Some", "Ok", "None", "Err", "Continue", "Break") and re.search(r"(option::Option|result::Result|ControlFlow)", d[1]): return mk("var", n, *ops)
                return mk("var", re.sub(r"<.*>", "", mir.strip_generics(d[1])), *ops)
            return mk("struct", mir.strip_generics(str(d[1])), *ops)
        if k in ("len", "ptrmeta"): return self.length(self.val(self.operand(fr, rv.ops[0])))
        if k == "disc":
            p = rv.ops[0]
            v = self.read(fr, p)
            return mk("disc", self.val(v), self.place_type(fr, p, s.text))
        if k == "repeat": return mk("repeat", self.operand(fr, rv.ops[0]), str(rv.data))
        if k == "box": return self.operand(fr, rv.ops[0])
        return mk("opaque", k, erase_closures(str(rv.data))[:80])
    def length(self, v):
        if v.k == "array": return integer(len(v.a))
        if v.k == "repeat":
            m = re.match(r"^(?:const )?(\d+)", v.a[1])
            if m: return integer(int(m.group(1)))
        return mk("len", v)
    def place_type(self, fr, p, text):
        if not p.proj: return fr.fn.locals.get(p.local, "")
        m = re.search(r"discriminant\((.*)\)$", text)
        if m:
            inner = m.group(1)
            if all(x[0] == "deref" for x in p.proj): return re.sub(r"^(&('\w+ )?(mut )?)+", "", fr.fn.locals.get(p.local, ""))
            i = inner.rfind("): ")
            d, j = 0, len(inner) - 1
            m2 = re.match(r"^\(?\*?\((.*)\)\)?$", inner)
            x = inner
            # type annotation of the outermost parenthesised projection
            depth, pos = 0, None
            for n, ch in enumerate(x):
                if ch == "(": depth += 1
                elif ch == ")": depth -= 1
                elif ch == ":" and depth == 1 and x[n:n+2] == ": " : pos = n; break
            if pos is not None: return re.sub(r"^(&('\w+ )?(mut )?)+", "", x[pos+2:].rstrip(")"))
        return ""
    def enums(self):
        if self._enum is None:
            self._enum = {}
            root = getattr(self.prog, "root", None)
            for f in mir.rust_sources() if root is None else [os.path.join(d, x) for d, _, fs in os.walk(root) for x in sorted(fs)]:
                if not f.endswith(".rs"): continue
                try: s = open(os.path.join(mir.REPO, f) if not os.path.isabs(f) else f).read()
                except OSError: continue
                s = re.sub(r"//[^\n]*", "", s)
                for m in re.finditer(r"\benum\s+(\w+)[^{;]*\{", s):
                    j = mir.match_close(s, m.end() - 1)
                    vs = []
                    for part in mir.split_top(s[m.end():j], ","):
                        part = re.sub(r"#\[[^\]]*\]", "", part).strip()
                        mm = re.match(r"(\w+)", part)
                        if mm: vs.append(mm.group(1))
                    self._enum.setdefault(m.group(1), vs)
        return self._enum
    def switch(self, fr, t):
        v = self.operand(fr, t.op)
        v = self.val(v)
        vals = list(t.values)
        if v.k == "disc":
            d, ty = v.a
            if d.k == "cf": return t.targets[vals.index(0 if self.has(d.a[0]) else 1)] if (0 if self.has(d.a[0]) else 1) in vals else t.targets[-1]
            isopt, isres = bool(_opt_re.match(ty)), bool(_res_re.match(ty))
            if d.k == "ite" and not (isopt or isres): d = d.a[1] if self.truth(d.a[0]) else d.a[2]
            if d.k == "var" and not (isopt or isres):
                parts = d.a[0].split("::")
                n = parts[-1]
                if n in ("Some", "Ok", "None", "Err", "Continue", "Break"):
                    isopt, isres = n in ("Some", "None"), n in ("Ok", "Err")
                    if n in ("Continue", "Break"):
                        i = 0 if n == "Continue" else 1
                        return self._arm(t, vals, i)
                elif len(parts) > 1:
                    vs = self.enums().get(parts[-2])
                    if vs and n in vs: return self._arm(t, vals, vs.index(n))
                    if parts[-2] == "Ordering": return self._arm(t, vals, {"Less": -1, "Equal": 0, "Greater": 1}.get(n))
            if isopt: return self._arm(t, vals, 1 if self.has(d) else 0)
            if isres: return self._arm(t, vals, 0 if self.has(d) else 1)
            head = mir.type_head(ty) if ty else ""
            vs = self.enums().get(head)
            key = mk("disc", d)
            return self._multi(t, vals, key, (lambda i: vs[i] if vs and i is not None and 0 <= i < len(vs) else i), len(vs) if vs else None)
        if v.k == "int": return self._arm(t, vals, v.a[0])
        if v.k == "char": return self._arm(t, vals, ord(v.a[0]) if len(v.a[0]) == 1 else None)
        if set(x for x in vals if x is not None) <= {0} and (v.k in ("bool", "not", "has") or self.boolean(fr, t.op, v)):
            return self._arm(t, vals, 1 if self.truth(v) else 0)
        return self._multi(t, vals, mk("sw", v), lambda i: i, None)
    def boolean(self, fr, op, v):
        if isinstance(op, Place) and not op.proj: return fr.fn.locals.get(op.local) == "bool"
        if v.k == "bin" and v.a[0] in ("Eq", "Ne", "Lt", "Le", "BitAnd", "BitOr"): return True
        return True
    def _arm(self, t, vals, i):
        for x, tg in zip(vals, t.targets):
            if x == i: return tg
        return t.targets[-1]
    def _multi(self, t, vals, key, name, n):
        opts = []
        for x, tg in zip(vals, t.targets):
            if x is None and self._dead(tg): continue
            opts.append("otherwise" if x is None else name(x))
        if n is not None and "otherwise" in opts and len([o for o in opts if o != "otherwise"]) == n - 1:
            rest = [name(i) for i in range(n) if name(i) not in opts]
            opts[opts.index("otherwise")] = rest[0]
            v = self.choose(key, opts)
            if v == rest[0]: return t.targets[-1]
        else: v = self.choose(key, opts)
        for x, tg in zip(vals, t.targets):
            if x is not None and name(x) == v: return tg
        return t.targets[-1]
    def _dead(self, b):
        bl = self.frames[-1].fn.blocks.get(b)
        return bl is not None and bl.term.kind == "unreachable"
    def assign(self, fr, s):
        self.write(fr, s.place, self.rvalue(fr, s))
    # ------------------------------------------------ execution
    def call_fn(self, fn, args, site):
        if self.depth > self.max_depth + 12: raise Budget()
        fr = Frame(fn, site)
        for (l, _), a in zip(fn.args, args): fr.loc[l] = a
        self.depth += 1
        self.frames.append(fr)
        r = self.exec(fr)
        self.frames.pop()
        self.depth -= 1
        return r
    def exec(self, fr):
        fn = fr.fn
        g = cfg.of(fn)
        loops = fn.__dict__.get("_loops")
        if loops is None: loops = fn.__dict__["_loops"] = g.loops()
        b = 0 if 0 in fn.blocks else min(fn.blocks)
        prev = None
        active = {}
        while True:
            self.steps += 1
            if self.steps > self.max_steps: raise Budget()
            for h in [h for h in active if b not in loops[h]]:
                del active[h]
                self.loopstack = [x for x in self.loopstack if x[1] is not fr or x[2] != h]
            if b in loops:
                if b in active:
                    loop, frames, start = active[b]
                    raise End("back", loop=active[b])
                active[b] = self.enter_loop(fr, b, loops[b])
                self.loopstack.append((active[b][0], fr, b))
            bl = fn.blocks[b]
            for s in bl.stmts: self.assign(fr, s)
            t = bl.term
            k = t.kind
            if k == "goto": nb = t.targets[0]
            elif k == "switch": nb = self.switch(fr, t)
            elif k in ("drop", "assert"):
                if k == "assert":
                    v = self.val(self.operand(fr, t.op)) if t.op is not None else None
                nb = t.targets[0]
            elif k == "call":
                r = self.call(fr, bl, t)
                if not t.targets: raise End("panic", r)
                if t.dest is not None: self.write(fr, t.dest, r)
                nb = t.targets[0]
            elif k == "return":
                self.loopstack = [x for x in self.loopstack if x[1] is not fr]
                v = fr.loc.get(0, UNIT)
                return v
            elif k == "unreachable": raise End("dead")
            else:
                if not t.targets: raise End("panic")
                nb = t.targets[0]
            prev, b = b, nb
    def enter_loop(self, fr, h, body):
        fn = fr.fn
        site = (fn.canon, h, fr.site)
        cache = fn.__dict__.setdefault("_loopmods", {})
        if h not in cache:
            mods, uses = set(), set()
            for b in body:
                bl = fn.blocks[b]
                for s in bl.stmts:
                    mods.add((s.place.local, s.place.proj[:1] == (("deref",),)))
                    for o in s.rv.ops:
                        if isinstance(o, Place):
                            uses.add(o.local)
                            if s.rv.kind in ("ref", "addr") and s.rv.data == "mut": mods.add((o.local, o.proj[:1] == (("deref",),)))
                if bl.term.kind == "call":
                    if bl.term.dest is not None: mods.add((bl.term.dest.local, bl.term.dest.proj[:1] == (("deref",),)))
                    for o in bl.term.args:
                        if isinstance(o, Place): uses.add(o.local)
            cache[h] = (mods, uses)
        mods, uses = cache[h]
        vars = {}
        def add(f, l):
            name = (f.fn.canon if f.fn else "heap", l)
            if f is fr: name = ("", l)
            vars[name] = f
        def pointees(v, d=0):
            if v.k == "ref": add(v.a[0], v.a[1]); pointees(self.read_local(v.a[0], v.a[1]), d + 1) if d < 4 else None
            elif v.k in ("closure",):
                for c in v.a[1]: pointees(c, d + 1)
            elif v.k in ("tuple", "struct", "array"):
                for c in v.a:
                    if isinstance(c, T): pointees(c, d + 1)
        for l, viaref in mods:
            v = fr.loc.get(l)
            if viaref and v is not None and v.k == "ref": pointees(v)
            else:
                if v is not None and not self.temp(fr, l, h, body): add(fr, l)
        for l in uses:
            v = fr.loc.get(l)
            if v is not None: pointees(v)
        inv = self.invariant.get(site, set())
        names = sorted((n for n in vars if n not in inv), key=str)
        names = [n for n in names if vars[n].loc.get(n[1]) is not None and vars[n].loc[n[1]].k != "ref"]
        names = [n for n in names if not (vars[n].loc[n[1]].k == "closure" and vars[n] is not fr)]    # the environment a closure body runs in
        # what the body reads is part of the loop's identity: the same code entered with other values is another loop
        reads = tuple(self.snapshot(fr.loc[l]) for l in sorted(uses) if fr.loc.get(l) is not None and ("", l) not in names and l in self.livein(fr.fn, h))
        loop = mk("loop", site, tuple((n, self.snapshot(vars[n].loc[n[1]])) for n in names), reads)
        for n in names: vars[n].loc[n[1]] = mk("lv", loop, n)
        self.allloops.append(loop)
        return loop, {n: vars[n] for n in names}, len(self.conds)
    def temp(self, fr, l, h, body):
        """is the local always written before it is read inside the loop and not read after it (so its value at the header is dead)"""
        return l not in self.livein(fr.fn, h)
    def livein(self, fn, h):
        live = fn.__dict__.get("_live")
        if live is None: live = fn.__dict__["_live"] = liveness(fn)
        return live.get(h, ())
    def snapshot(self, v, d=0):
        """v with references replaced by what they point at now"""
        if not isinstance(v, T): return tuple(self.snapshot(x, d) for x in v) if isinstance(v, tuple) else v
        if v.k == "ref":
            if d > 12: return mk("opaque", "deep ref")
            return self.snapshot(self.deref(v), d + 1)
        if v.k in ("closure",): return mk("closure", v.a[0], tuple(mk("cell", self.snapshot(c, d + 1)) if isinstance(c, T) and c.k == "ref" else self.snapshot(c, d + 1) for c in v.a[1]))
        if v.k in ("tuple", "struct", "array", "var", "cf") and any(isinstance(x, T) and x.k in ("ref", "closure", "tuple", "struct", "array", "var") for x in v.a):
            return mk(v.k, *[self.snapshot(x, d + 1) if isinstance(x, T) else x for x in v.a])
        return v
    # ------------------------------------------------ calls
    def key(self, callee):
        k = self._keys.get(callee)
        if k is None:
            l = last_of(callee)
            c = mir.canon_callee(callee)
            m = re.match(r"^<(.*) as ([^>]*?)>::([\w#]+)$", c)
            ty = ""
            if m:
                k0 = m.group(2).split("::")[-1] + "::" + m.group(3)
                if l in _TYPED: ty = erase_closures(callee)
                elif l in ("from", "into") or k0 == "NamedFrom::new": ty = erase_closures(callee)
            else:
                k0 = c
                if l in _TYPED: ty = erase_closures(callee)
            if ty:
                g = re.search(r"::%s::<(.*)>$" % re.escape(l), ty)
                if l in ("collect", "sum", "product", "parse", "to_ndarray", "unpack") and g: ty = g.group(1)
            m = re.search(r"(\w+)::(\w*Comparator)::<\w+>::new\b", callee)
            if m: k0 = "%s::%s::new" % m.groups()          # which algorithm a comparator belongs to
            k = self._keys[callee] = (k0, l, ty)
        return k
    def lifted(self, fr, bl, t): pass
    def call(self, fr, bl, t):
        args = [self.operand(fr, a) for a in t.args]
        site = "%s:%d" % (fr.fn.canon, bl.id)
        if t.callee is None:
            f = self.val(self.operand(fr, t.fop)) if t.fop is not None else mk("opaque", "fn")
            return self.apply(f, args, site, fr, bl)
        return self.invoke(t.callee, args, site, fr, bl, ret=fr.fn.locals.get(t.dest.local, "") if t.dest is not None and not t.dest.proj else "")
    def apply(self, f, args, site, fr=None, bl=None):
        """call a function value"""
        f = self.val(f)
        if f.k == "closure":
            c = self.prog.by_closure.get(f.a[0])
            if c is not None: return self.call_fn(c, [f] + list(args), site)
        if f.k == "fn":
            return self.invoke(f.a[0], list(args), site, fr, bl)
        if f.k == "const": return self.invoke(f.a[0], list(args), site, fr, bl)
        if f.k == "ite": return self.apply(f.a[1] if self.truth(f.a[0]) else f.a[2], args, site, fr, bl)
        return mk("call", "<indirect>", "", self.snapshot(f), *[self.snapshot(a) for a in args])
    def invoke(self, callee, args, site, fr=None, bl=None, ret=""):
        k0, l, ty = self.key(callee)
        ev = Event(k0, callee, None, fr.fn if fr else None, bl.id if bl else None, len(self.conds), self.depth, tuple(x[0] for x in self.loopstack))
        r = self.model(callee, k0, l, ty, args, site, fr, bl, ret)
        if r is not None: return r
        if k0 not in self.opaque and l not in self.opaque and self.depth <= self.max_depth:
            fs = self.prog.resolve(callee)
            if len(fs) == 1 and fs[0].blocks and not any(x.fn is fs[0] for x in self.frames) and (self.inline is None or self.inline(fs[0])):
                f = fs[0]
                a = args
                if len(f.args) == len(a):
                    ev.args = tuple(self.snapshot(x) for x in args)
                    self.events.append(ev)
                    ev.result = r = self.call_fn(f, a, site)
                    return r
        # foreign call
        snap = tuple(self.snapshot(a) for a in args)
        ev.args = snap
        self.events.append(ev)
        r = mk("call", k0, ty, *snap)
        ev.result = r
        n = 0
        for i, a in enumerate(args):
            for f, lo, pr in self.mutrefs(a):
                old = f.loc.get(lo, mk("undef", ""))
                new = mk("mut", k0, ty, i if n == 0 else (i, n), *snap)
                f.loc[lo] = self.update(f, old, pr, new)
                n += 1
        return r
    def mutrefs(self, a, d=0):
        if a.k == "ref": return [a.a]
        if a.k == "closure":
            c = self.prog.by_closure.get(a.a[0])
            out = []
            for x in a.a[1]: out += self.mutrefs(x, d + 1) if isinstance(x, T) else []
            return out
        if a.k in ("tuple", "struct", "array", "var") and d < 3:
            out = []
            for x in a.a:
                if isinstance(x, T): out += self.mutrefs(x, d + 1)
            return out
        return []
    def model(self, callee, k0, l, ty, args, site, fr, bl, ret):
        V = self.val
        n = len(args)
        if l == "branch" and n == 1: return mk("cf", V(args[0]))
        if l == "from_residual" and n == 1:
            x = V(args[0])
            b = x.a[0] if x.k == "residual" else x
            rt = callee
            if rt.startswith("<std::option::Option") or rt.startswith("<core::option::Option"): return NONE
            if b.k == "var" and b.a[0] == "Err": return b
            return mk("var", "Err", mk("err", b))
        if l == "from_output" and n == 1: return mk("var", "Some" if "option::Option" in callee.split(" as ")[0] else "Ok", V(args[0]))
        opt = "std::option::Option" in callee.split("::<")[0] or callee.startswith("<std::option::Option") or k0.startswith("std::option::Option::")
        res = "std::result::Result" in callee.split("::<")[0] or callee.startswith("<std::result::Result") or k0.startswith("std::result::Result::")
        if callee.startswith("<") and not re.match(r"^<std::(option::Option|result::Result)", callee): opt = res = False
        if (opt or res) and n >= 1:
            r = self.optres(opt, l, args, site, fr, bl)
            if r is not None: return r
        if l in ("call", "call_mut", "call_once") and n == 2 and re.search(r" as (std|core)::ops::(Fn|FnMut|FnOnce)", callee):
            tup = V(args[1])
            if tup.k == "tuple": return self.apply(args[0], list(tup.a), site, fr, bl)
            return mk("call", "<indirect>", "", self.snapshot(args[0]), self.snapshot(tup))
        if l in ("eq", "ne") and n == 2 and "PartialEq" in callee:
            a, b = self.snapshot(args[0]), self.snapshot(args[1])
            if a.k == "var" and b.k == "var" and a.a[0] != b.a[0]: return mk("bool", l == "ne")
            if a is b and a.k == "var" and len(a.a) == 1: return mk("bool", l == "eq")
            for x, y in ((a, b), (b, a)):
                if x.k == "var" and len(x.a) == 1 and x.a[0] in ("None",): 
                    t = mk("has", y)
                    return self.neg(t) if l == "eq" else t
            return self.bin("Eq" if l == "eq" else "Ne", a, b)
        if l in ("lt", "le", "gt", "ge") and n == 2 and "PartialOrd" in callee:
            return self.bin(l.capitalize(), self.snapshot(args[0]), self.snapshot(args[1]))
        if n == 2 and l in _BIN and re.search(r" as (std|core)::ops::\w+", callee):
            op = _BIN[l]
            if op == "Mul" and _MATRIX.search(callee.split("::mul")[0]): op = "MatMul"                # the product of matrices depends on the order
            elif op == "Add" and re.match(r"<(std::string::|alloc::string::)?String as", callee): op = "Concat"
            return self.bin(op, self.snapshot(args[0]), self.snapshot(args[1]))
        if n == 2 and l.endswith("_assign") and l[:-7] in _BIN and args[0].k == "ref":
            f, lo, pr = args[0].a
            old = self.deref(args[0])
            f.loc[lo] = self.update(f, f.loc.get(lo, mk("undef", "")), pr, self.bin(_BIN[l[:-7]], old, self.snapshot(args[1])))
            return UNIT
        if n == 1 and l == "not" and "ops::Not" in callee: return self.neg(V(args[0]))
        if n == 1 and l == "neg" and "ops::Neg" in callee: return mk("un", "Neg", V(args[0]))
        if n == 1 and l in ("index", "index_mut"): return None
        if l == "index" and n == 2 and "ops::Index" in callee:
            i = V(args[1])
            return self.index(self.snapshot(args[0]), self.snapshot(i))
        if l == "index_mut" and n == 2 and "ops::IndexMut" in callee and args[0].k == "ref":
            f, lo, pr = args[0].a
            return mk("ref", f, lo, pr + (("i", self.snapshot(args[1])),))
        if l in ("deref_mut", "as_mut", "borrow_mut", "as_mut_slice", "by_ref", "rb_mut", "as_mut_ptr") and n == 1 and args[0].k == "ref": return args[0]
        if l in ("deref", "as_ref", "borrow", "as_slice", "as_str", "rb", "as_deref", "as_ptr") and n == 1: return V(args[0])
        if l in ("clone", "cloned", "copied", "to_owned", "into_owned", "to_string") and n == 1 and ("Iterator" not in callee): return V(args[0])
        if l == "into" and n == 1 and not self.prog.resolve(callee): return V(args[0])
        if l == "into_iter" and n == 1 and not self.prog.resolve(callee):
            x = self.snapshot(args[0])
            if x.k == "call" and x.a[0].split("::")[-1] in ITER: return x
            return mk("call", "iter", "", x)
        if l in ("iter",) and n == 1 and not self.prog.resolve(callee): return mk("call", "iter", "", self.snapshot(args[0]))
        if l == "install" and n == 2 and "ThreadPool" in callee:
            ev = Event(k0, callee, (), fr.fn if fr else None, bl.id if bl else None, len(self.conds), self.depth, tuple(x[0] for x in self.loopstack))
            self.events.append(ev)
            return self.apply(args[1], [], site, fr, bl)
        if l == "len" and n == 1 and re.search(r"(::\[|<impl \[|Vec|slice)", callee): return self.length(self.snapshot(args[0]))
        if l == "is_empty" and n == 1: return self.bin("Eq", self.length(self.snapshot(args[0])) if re.search(r"(<impl \[|Vec|slice)", callee) else mk("call", k0.rsplit("::", 1)[0] + "::len", "", self.snapshot(args[0])), integer(0))
        if l in ("box_new", "exchange_malloc"):
            h = Frame(None, site)
            h.loc[0] = mk("undef", "heap")
            return mk("ref", h, 0, ())
        if l == "new" and n == 1 and re.search(r"boxed::Box::<", callee): return args[0]
        if l in ("into_vec",) and n == 1: return self.snapshot(args[0])
        if l in ("size_of", "align_of"): return mk("opaque", l)
        if l in ("replace",) and n == 2 and "mem::replace" in callee and args[0].k == "ref":
            old = self.snapshot(args[0]); f, lo, pr = args[0].a
            f.loc[lo] = self.update(f, f.loc.get(lo), pr, args[1]); return old
        if l == "swap" and n == 2 and "mem::swap" in callee and args[0].k == "ref" and args[1].k == "ref":
            a, b = self.deref(args[0]), self.deref(args[1])
            for r, v in ((args[0], b), (args[1], a)):
                f, lo, pr = r.a
                f.loc[lo] = self.update(f, f.loc.get(lo), pr, v)
            return UNIT
        return None
    def optres(self, opt, l, args, site, fr, bl):
        V = self.val
        x = V(args[0])
        yes, no = ("Some", "None") if opt else ("Ok", "Err")
        wrap = lambda v: mk("var", yes, v)
        if l in ("unwrap", "expect", "unwrap_unchecked"):
            if x.k == "var" and x.a[0] in ("None", "Err"): raise End("panic")
            if x.k == "ite": return self.pay(x.a[1] if self.truth(x.a[0]) else x.a[2])
            if x.k != "var": self.facts.setdefault(mk("has", x), True)
            return self.pay(x)
        if l in ("as_ref", "cloned", "copied", "as_deref", "map_err", "clone", "as_deref_mut", "inspect_err"): return x
        if l == "as_mut": return args[0]
        if l == "ok": return some(x.a[1]) if x.k == "var" and x.a[0] == "Ok" else NONE if x.k == "var" else x
        if l in ("ok_or", "ok_or_else"):
            return mk("var", "Ok", x.a[1]) if x.k == "var" and x.a[0] == "Some" else mk("var", "Err", mk("err", x)) if x.k == "var" else x
        if l in ("is_some", "is_ok"): return mk("bool", self.has(x)) if x.k == "var" else mk("has", x)
        if l in ("is_none", "is_err"): return mk("bool", not self.has(x)) if x.k == "var" else mk("not", mk("has", x))
        if l == "unwrap_or": return self.pay(x) if self.has(x) else V(args[1])
        if l == "unwrap_or_else": return self.pay(x) if self.has(x) else self.apply(args[1], [] if opt else [mk("err", x)], site, fr, bl)
        if l == "unwrap_or_default": return self.pay(x) if self.has(x) else mk("call", "Default::default", "")
        if l == "map": return wrap(self.apply(args[1], [self.pay(x)], site, fr, bl)) if self.has(x) else (NONE if opt else mk("var", "Err", mk("err", x)))
        if l == "map_or": return self.apply(args[2], [self.pay(x)], site, fr, bl) if self.has(x) else V(args[1])
        if l == "map_or_else": return self.apply(args[2], [self.pay(x)], site, fr, bl) if self.has(x) else self.apply(args[1], [] if opt else [mk("err", x)], site, fr, bl)
        if l == "and_then": return self.val(self.apply(args[1], [self.pay(x)], site, fr, bl)) if self.has(x) else (NONE if opt else mk("var", "Err", mk("err", x)))
        if l in ("is_some_and", "is_ok_and"): return self.apply(args[1], [self.pay(x)], site, fr, bl) if self.has(x) else FALSE
        if l == "filter" and opt:
            if not self.has(x): return NONE
            return some(self.pay(x)) if self.truth(self.val(self.apply(args[1], [self.pay(x)], site, fr, bl))) else NONE
        if l == "or": return x if self.has(x) else V(args[1])
        if l == "or_else": return x if self.has(x) else self.val(self.apply(args[1], [], site, fr, bl))
        if l == "take" and opt and args[0].k == "ref":
            f, lo, pr = args[0].a
            f.loc[lo] = self.update(f, f.loc.get(lo), pr, NONE)
            return x
        return None

ITER = set("map filter zip enumerate rev chain flatten flat_map take skip step_by filter_map take_while skip_while peekable iter into_iter par_iter into_par_iter copied cloned windows chunks chunks_exact inspect scan values_iter downcast_iter into_no_null_iter par_bridge cycle product_iter chars bytes split split_whitespace lines iter_mut combinations dedup tuple_windows amortized_iter zip_eq into_values keys values drain".split())

_ord = {}
def order(t):
    """a stable total order on terms (content-based)"""
    r = _ord.get(t)
    if r is None:
        parts = []
        for x in t.a:
            if isinstance(x, T): parts.append(order(x))
            elif isinstance(x, tuple): parts.append(str(tuple(order(y) if isinstance(y, T) else str(y) for y in x)))
            elif isinstance(x, Frame): parts.append("F")
            else: parts.append(str(x))
        s = t.k + "(" + ",".join(parts) + ")"
        if len(s) > 200:
            import hashlib
            s = s[:40] + hashlib.md5(s.encode()).hexdigest()
        r = _ord[t] = s
    return r

def liveness(fn):
    """block -> locals live at its start"""
    gen, kill, succ = {}, {}, {}
    for b in fn.blocks.values():
        if b.cleanup: continue
        g, k = set(), set()
        def use(o):
            if isinstance(o, Place):
                if o.local not in k: g.add(o.local)
                for x in o.proj:
                    if x[0] == "idx" and x[1] not in k: g.add(x[1])
        for s in b.stmts:
            for o in s.rv.ops: use(o)
            if s.place.proj: use(s.place)
            else: k.add(s.place.local)
        t = b.term
        if t.kind == "call":
            for o in t.args: use(o)
            if t.fop is not None: use(t.fop)
            if t.dest is not None:
                if t.dest.proj: use(t.dest)
                else: k.add(t.dest.local)
        elif t.kind in ("switch", "assert") and t.op is not None: use(t.op)
        elif t.kind == "return":
            if 0 not in k: g.add(0)
        gen[b.id], kill[b.id] = g, k
        succ[b.id] = [x for x in t.targets if x in fn.blocks and not fn.blocks[x].cleanup]
    live = {b: set(gen[b]) for b in gen}
    ch = True
    while ch:
        ch = False
        for b in gen:
            o = set()
            for s in succ[b]: o |= live.get(s, set())
            n = gen[b] | (o - kill[b])
            if n != live[b]: live[b] = n; ch = True
    return live
