"""Symbolic evaluation of the repository's Python layer, over its syntax trees only (nothing is imported or run).

`Interp.run(function)` enumerates every path through a function (and through the package functions it calls),
re-executing it under a sequence of decisions for the conditions that depend on unknown inputs.  Each path carries the
conditions taken, the value returned or the exception raised (as terms over the parameters), and every call made into
code outside the package.  Terms are immutable; lists and dictionaries built by the code are tracked element by
element, an element standing for "any number of these" is a Star."""
from __future__ import annotations
import ast, itertools, copy, os
from dataclasses import dataclass, field

REPO = os.environ.get("VF_REPO", "/repo")
PKG = "polars_ds"
PYROOT = os.path.join(REPO, "python")

# ------------------------------------------------------------------ terms

class Term:
    __slots__ = ()

class Const(Term):
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, Const) and type(o.v) is type(self.v) and o.v == self.v
    def __hash__(self): return hash((type(self.v).__name__, repr(self.v)))
    def __repr__(self): return repr(self.v)

class Sym(Term):
    """an unknown: a parameter of the analysed function, a field of self, a module setting"""
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Sym) and o.name == self.name
    def __hash__(self): return hash(("Sym", self.name))
    def __repr__(self): return self.name

class Op(Term):
    __slots__ = ("op", "args", "_h")
    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._h = hash((op, args))
    def __eq__(self, o): return self is o or (isinstance(o, Op) and o._h == self._h and o.op == self.op and o.args == self.args)
    def __hash__(self): return self._h
    def __repr__(self): return show(self)

class Star(Term):
    """any number of elements of this shape"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __eq__(self, o): return isinstance(o, Star) and o.t == self.t
    def __hash__(self): return hash(("Star", self.t))
    def __repr__(self): return "*" + repr(self.t)

def show(t):
    if not isinstance(t, Op):
        return repr(t)
    a = t.args
    if t.op == "ext": return a[0].replace("polars.", "pl.") if a[0] != "polars" else "pl"
    if t.op == "attr": return "%s.%s" % (show(a[0]), a[1])
    if t.op == "call":
        kws = ["%s=%s" % (k, show(v)) for k, v in a[2]]
        return "%s(%s)" % (show(a[0]), ", ".join([show(x) for x in a[1]] + kws))
    if t.op in ("bin", "cmp"): return "(%s %s %s)" % (show(a[1]), a[0], show(a[2]))
    if t.op == "list": return "[%s]" % ", ".join(show(x) for x in a)
    if t.op == "tuple": return "(%s)" % ", ".join(show(x) for x in a)
    if t.op == "dict": return "{%s}" % ", ".join("%s: %s" % (show(k), show(v)) for k, v in a)
    if t.op == "sub": return "%s[%s]" % (show(a[0]), show(a[1]))
    return "%s(%s)" % (t.op, ", ".join(show(x) if isinstance(x, Term) else repr(x) for x in a))

def EXT(path): return Op("ext", path)

def walk(t):
    """every subterm"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            yield x
            if isinstance(x, Op): st.extend(x.args)
            elif isinstance(x, Star): st.append(x.t)
        elif isinstance(x, (tuple, list)):
            st.extend(x)

_deps_cache = {}
def deps(t):
    """names of the unknowns a term depends on"""
    if isinstance(t, (list, tuple)):
        out = set()
        for x in t: out |= deps(x)
        return frozenset(out)
    if not isinstance(t, Term): return frozenset()
    r = _deps_cache.get(t)
    if r is None:
        if isinstance(t, Sym): r = frozenset([t.name])
        elif isinstance(t, Star): r = deps(t.t)
        elif isinstance(t, Op):
            s = set()
            for x in t.args: s |= deps(x)
            r = frozenset(s)
        else: r = frozenset()
        _deps_cache[t] = r
    return r

# ------------------------------------------------------------------ mutable values

class LList:
    def __init__(self, elems, depth=0, kind="list"): self.e, self.depth, self.kind = list(elems), depth, kind
    def has_star(self): return any(isinstance(x, Star) for x in self.e)

class LDict:
    def __init__(self, pairs, depth=0): self.p, self.depth = list(pairs), depth     # [(key term, value)]
    def get(self, k):
        for kk, v in reversed(self.p):
            if kk == k: return v
        return None
    def set(self, k, v):
        for i, (kk, _) in enumerate(self.p):
            if kk == k:
                self.p[i] = (k, v); return
        self.p.append((k, v))

class Obj:
    def __init__(self, cls, attrs=None): self.cls, self.attrs = cls, attrs or {}

class Closure:
    def __init__(self, node, mod, env=None, self_=None, cls=None, name=None):
        self.node, self.mod, self.env, self.self_, self.cls = node, mod, env, self_, cls
        self.name = name or getattr(node, "name", "<lambda>")
    @property
    def qual(self): return self.mod.name + "." + ((self.cls.name + ".") if self.cls else "") + self.name

class Partial:
    def __init__(self, f, args, kw): self.f, self.args, self.kw = f, args, kw

class ClassRef:
    def __init__(self, node, mod): self.node, self.mod, self.name = node, mod, node.name
    def method(self, m):
        for x in self.node.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == m: return x
        return None
    def is_dataclass(self):
        return any((isinstance(d, ast.Name) and d.id == "dataclass") or (isinstance(d, ast.Call) and getattr(d.func, "id", "") == "dataclass")
                   for d in self.node.decorator_list)
    def is_enum(self): return any(getattr(b, "id", getattr(b, "attr", "")) in ("Enum", "IntEnum", "StrEnum") for b in self.node.bases)
    def fields(self):
        return [(x.target.id, x.value) for x in self.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]

class ModRef:
    def __init__(self, mod): self.mod = mod

def freeze(v):
    if isinstance(v, Term): return v
    if isinstance(v, LList): return Op(v.kind, *[freeze(x) for x in v.e])
    if isinstance(v, LDict): return Op("dict", *[(freeze(k), freeze(x)) for k, x in v.p])
    if isinstance(v, Obj): return Op("obj", v.cls.name, *[(k, freeze(x)) for k, x in sorted(v.attrs.items())]) if not getattr(v, "_f", 0) else Sym("self")
    if isinstance(v, Closure): return Op("func", v.qual, *([freeze(v.self_)] if v.self_ is not None and not isinstance(v.self_, Obj) else []),
                                         *_captured(v))
    if isinstance(v, Partial): return Op("partial", freeze(v.f), tuple(freeze(x) for x in v.args), tuple((k, freeze(x)) for k, x in sorted(v.kw.items())))
    if isinstance(v, ClassRef): return Op("class", v.mod.name + "." + v.name)
    if isinstance(v, ModRef): return Op("ext", v.mod.name)
    raise TypeError(repr(v))

def _captured(c):
    if c.env is None: return []
    names = {n.id for n in ast.walk(c.node) if isinstance(n, ast.Name)}
    out = []
    e = c.env
    for n in sorted(names):
        if n in e and isinstance(e[n], (Term, LList, LDict, Partial)): out.append((n, freeze(e[n])))
    return out

# ------------------------------------------------------------------ modules

class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f: self.src = f.read()
        self.tree = ast.parse(self.src)
        self.names = {}          # name -> ('func', node) ('class', node) ('import', path) ('value', node)
        self.is_pkg = path.endswith("__init__.py")
        self._collect(self.tree.body)
    def _collect(self, body):
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)): self.names[x.name] = ("func", x)
            elif isinstance(x, ast.ClassDef): self.names[x.name] = ("class", x)
            elif isinstance(x, ast.Import):
                for a in x.names:
                    self.names[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(x, ast.ImportFrom):
                base = self.resolve_rel(x)
                for a in x.names:
                    if a.name == "*": self.names.setdefault("*", ("stars", []))[1].append(base)
                    else: self.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name): self.names[t.id] = ("value", x.value)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                self.names[x.target.id] = ("value", x.value)
            elif isinstance(x, ast.If):
                self._collect(x.orelse); self._collect(x.body)
            elif isinstance(x, ast.Try):
                self._collect(x.body)
    def resolve_rel(self, x):
        if x.level == 0: return x.module or ""
        parts = self.name.split(".")
        if not self.is_pkg: parts = parts[:-1]
        parts = parts[:len(parts) - (x.level - 1)]
        return ".".join(parts + ([x.module] if x.module else []))
    def functions(self):
        return {n: v[1] for n, v in self.names.items() if v[0] == "func"}
    def classes(self):
        return {n: v[1] for n, v in self.names.items() if v[0] == "class"}
    def dunder_all(self):
        v = self.names.get("__all__")
        if not v: return None
        return _all_list(self, v[1])

def _all_list(mod, node):
    if isinstance(node, (ast.List, ast.Tuple)):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Constant): out.append(e.value)
            elif isinstance(e, ast.Starred):
                r = _all_list(mod, e.value)
                if r is None: return None
                out += r
            else: return None
        return out
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        a, b = _all_list(mod, node.left), _all_list(mod, node.right)
        return None if a is None or b is None else a + b
    return None

class Package:
    def __init__(self):
        self.mods = {}
        root = os.path.join(PYROOT, PKG)
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x != "__pycache__"]
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), PYROOT)[:-3].split(os.sep)
                    if rel[-1] == "__init__": rel = rel[:-1]
                    n = ".".join(rel)
                    self.mods[n] = Module(n, os.path.join(d, f))
    def lookup(self, mod, name, seen=()):
        """what a name means at module level -> value or None"""
        ent = mod.names.get(name)
        if ent is None:
            st = mod.names.get("*")
            for base in (st[1] if st else []):
                m = self.mods.get(base)
                if m is not None and (m.name, name) not in seen:
                    al = m.dunder_all()
                    if al is not None and name not in al: continue
                    r = self.lookup(m, name, seen + ((m.name, name),))
                    if r is not None: return r
            return None
        k = ent[0]
        if k == "func": return Closure(ent[1], mod)
        if k == "class": return ClassRef(ent[1], mod)
        if k == "import":
            return ModRef(self.mods[ent[1]]) if ent[1] in self.mods else EXT(ent[1])
        if k == "from":
            base, n = ent[1], ent[2]
            if base + "." + n in self.mods: return ModRef(self.mods[base + "." + n])
            if base in self.mods:
                m = self.mods[base]
                if (m.name, n) in seen: return None
                r = self.lookup(m, n, seen + ((m.name, n),))
                return r if r is not None else EXT(base + "." + n)
            return EXT(base + "." + n)
        if k == "value":
            node = ent[1]
            try:
                v = ast.literal_eval(node)
            except Exception:
                v = None
                if isinstance(node, ast.Name): return self.lookup(mod, node.id, seen + ((mod.name, name),))
                return Sym("%s.%s" % (mod.name, name))
            if isinstance(v, bool): return Sym("%s.%s" % (mod.name, name))     # a module-level switch: both settings
            if isinstance(v, (str, int, float, type(None))): return Const(v)
            return to_value(v)
        return None

def to_value(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return LList([to_value(x) for x in v], kind="list" if isinstance(v, list) else "tuple" if isinstance(v, tuple) else "set")
    if isinstance(v, dict): return LDict([(to_value(k), to_value(x)) for k, x in v.items()])
    return Const(v)

# ------------------------------------------------------------------ interpretation

class _Ret(Exception):
    def __init__(self, v): self.v = v
class _Raise(Exception):
    def __init__(self, t): self.t = t
class _Break(Exception): pass
class _Continue(Exception): pass
class Budget(Exception): pass
class Infeasible(Exception): pass

@dataclass
class Path:
    conds: list            # [(term, bool)]
    outcome: str           # 'return' | 'raise'
    value: object          # frozen term
    calls: list            # external calls in order: Op('call', ..)
    sites: list            # parallel to calls: (qualified function, line)
    raw: object = None
    selfobj: object = None
    inlined: set = field(default_factory=set)
    binds: list = field(default_factory=list)     # package calls: (caller qual, callee Closure, {param: frozen value})
    dom: dict = None
    typ: dict = None

_CLASSES = {"str", "int", "float", "bool", "list", "tuple", "dict", "set", "pl.Expr", "pl.Series", "pl.DataFrame", "pl.LazyFrame", "none", "numpy.ndarray"}
_TYPES = {"str", "int", "float", "bool", "list", "tuple", "dict", "set", "pl.Expr", "pl.Series", "pl.DataFrame", "pl.LazyFrame", "none"}
BUILTINS = {"len", "abs", "float", "int", "str", "bool", "list", "tuple", "dict", "set", "range", "enumerate", "zip", "sorted", "min", "max", "sum",
            "any", "all", "isinstance", "issubclass", "hasattr", "getattr", "map", "filter", "reversed", "print", "type", "next", "iter", "open", "round", "pow",
            "ValueError", "TypeError", "KeyError", "NotImplementedError", "RuntimeError", "Exception", "AttributeError", "ImportError",
            "DeprecationWarning", "UserWarning", "FutureWarning", "property", "staticmethod", "classmethod", "frozenset", "object", "super",
            "StopIteration", "IndexError", "divmod", "id", "repr", "vars", "callable", "setattr", "format", "slice", "AssertionError", "Warning", "complex", "bytes", "hash"}
_PURE_STR = {"lower", "upper", "strip", "replace", "startswith", "endswith", "split", "join", "format", "title", "capitalize", "lstrip", "rstrip", "removeprefix", "removesuffix", "isdigit"}
_BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&",
           ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
_CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
           ast.In: "in", ast.NotIn: "not in"}
_OPERATOR = {"mul": "*", "add": "+", "sub": "-", "truediv": "/", "and_": "&", "or_": "|", "pow": "**", "mod": "%", "floordiv": "//"}
_ANYNEG = {"!=": "==", "==": "!=", "is not": "is", "is": "is not", "not in": "in", "in": "not in", ">=": "<", "<": ">=", "<=": ">", ">": "<="}
_NEGCMP = {"!=": "==", "is not": "is", "not in": "in", ">=": "<", "<=": ">"}

_POLARS_TYPES = {"Int8", "Int16", "Int32", "Int64", "Int128", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "Boolean", "String", "Utf8", "Date", "Time", "Binary", "Null", "Object", "Unknown", "Categorical"}
def _dtype_name(t):
    """a polars data type named outright"""
    if isinstance(t, Op) and t.op == "ext" and isinstance(t.args[0], str) and t.args[0].startswith("polars."):
        n = t.args[0].split(".")[-1]
        if n in _POLARS_TYPES: return "String" if n == "Utf8" else n
    return None

class Interp:
    def __init__(self, pkg, max_paths=3000, max_depth=30, opaque=None, max_steps=200000):
        self.pkg, self.max_paths, self.max_depth, self.max_steps = pkg, max_paths, max_depth, max_steps
        self.opaque = opaque if opaque is not None else expr_coercions(pkg)
        self.truncated = False
        self.model = None        # what is known about data frames (frames.Model)

    # ---------------- driving
    def run(self, clo, params=None, selfobj=None, init=None, fix=None):
        """all paths through function `clo`; parameters become Sym(name) unless given in params"""
        paths, stack = [], [[]]
        self.truncated = False
        while stack:
            if len(paths) >= self.max_paths:
                self.truncated = True
                break
            pre = stack.pop()
            self.pre, self.pos, self.taken = pre, 0, []
            self.conds, self.calls, self.sites, self.inlined, self.binds = [], [], [], set(), []
            self.facts, self.dom, self.notin, self.typ, self.nottyp = {}, {}, {}, {}, {}
            self.star, self.depth, self.steps, self.cur, self.line = 0, 0, 0, [clo.qual], 0
            self.filters, self.nodes = [], [id(clo.node)]
            ps = copy.deepcopy(params) if params else {}
            so = copy.deepcopy(selfobj) if selfobj is not None else None
            if init: init(self)
            raw = None
            try:
                try:
                    raw = self.call_top(clo, ps, so)
                    out, val = "return", self.frz(raw)
                except _Raise as e:
                    out, val = "raise", e.t
                except (Budget, RecursionError):
                    out, val = "unknown", Const(None)
                    self.truncated = True
                paths.append(Path(list(self.conds), out, val, self.calls, self.sites, raw, so, self.inlined, self.binds, dict(self.dom), dict(self.typ)))
            except Infeasible:
                pass
            for i in range(len(pre), len(self.taken)):
                stack.append(self.taken[:i] + [not self.taken[i]])
        return paths

    def call_top(self, clo, params, so):
        n = clo.node
        env = {}
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == "self" and so is not None: env["self"] = so
            elif x.arg == "cls" and clo.cls is not None: env["cls"] = clo.cls
            else: env[x.arg] = params[x.arg] if x.arg in params else Sym(x.arg)
        if a.vararg: env[a.vararg.arg] = params.get(a.vararg.arg, LList([Star(Op("elem", Sym(a.vararg.arg)))], kind="tuple"))
        if a.kwarg: env[a.kwarg.arg] = params.get(a.kwarg.arg, LDict([(Star(Op("key", Sym(a.kwarg.arg))), Op("val", Sym(a.kwarg.arg)))]))
        return self.exec_body(clo, env)

    def exec_body(self, clo, env):
        n = clo.node
        sc = Scope(env, clo)
        if isinstance(n, ast.Lambda): return self.ev(n.body, sc)
        try:
            self.block(n.body, sc)
        except _Ret as r:
            return r.v
        return Const(None)

    def frz(self, v):
        return freeze(v)

    # ---------------- decisions
    def choose(self, term):
        if self.pos < len(self.pre): b = self.pre[self.pos]
        else: b = True
        self.pos += 1
        self.taken.append(b)
        self.conds.append((term, b))
        return b

    def truth(self, v):
        """decide the truth value of v"""
        if isinstance(v, Const): return bool(v.v)
        if isinstance(v, LList):
            if not v.e: return False
            if not v.has_star() or any(not isinstance(x, Star) for x in v.e): return True
            return self.truth_term(Op("truth", freeze(v)))
        if isinstance(v, LDict): return bool(v.p)
        if isinstance(v, (Obj, Closure, Partial, ClassRef, ModRef)): return True
        return self.truth_term(v)

    def truth_term(self, t):
        if isinstance(t, Op):
            if t.op == "not": return not self.truth_term(t.args[0]) if isinstance(t.args[0], Term) and not isinstance(t.args[0], Const) else not self.truth(t.args[0])
            if t.op == "cmp":
                o, a, b = t.args
                if o in ("!=", "is not", "not in"):
                    return not self.truth_term(Op("cmp", _NEGCMP[o], a, b))
                if o in (">=", "<="):            # canonical form: a >= b  is  not (a < b)  (decided as one atom)
                    return not self.truth_term(Op("cmp", _NEGCMP[o], a, b))
                if o == ">":
                    return self.truth_term(Op("cmp", "<", b, a))
                if o in ("==", "is"):
                    if isinstance(a, Const) and not isinstance(b, Const): a, b = b, a
                    if isinstance(a, Const) and isinstance(b, Const):
                        return a.v == b.v if o == "==" else (a.v is b.v or a == b)
                    if isinstance(b, Const):
                        return self.decide_eq(a, b, o)
                    if a == b: return True
                    if _dtype_name(a) and _dtype_name(b): return _dtype_name(a) == _dtype_name(b)
                if o == "in":
                    r = self.decide_in(a, b)
                    if r is not None: return r
            if t.op == "isinstance": return self.decide_type(t)
        if t in self.facts: return self.facts[t]
        # truthiness of something known to be None / known type
        if t in self.dom and len(self.dom[t]) == 1:
            return bool(next(iter(self.dom[t])).v)
        b = self.choose(t)
        self.facts[t] = b
        return b

    def decide_eq(self, a, c, o):
        if isinstance(a, Op) and a.op in ("list", "tuple", "dict", "set", "func", "class", "partial", "obj"): return False
        if isinstance(a, Op) and a.op == "call" and c.v is None and _known_nonnull(a): return False
        d = self.dom.get(a)
        if d is not None:
            if c not in d: return False
            if len(d) == 1: return True
        if c in self.notin.get(a, ()): return False
        ty = self.typ.get(a)
        if c.v is None and ty is not None and "none" not in ty: return False
        if c.v is None and a in self.nottyp and "none" in self.nottyp[a]: return False
        if ty is not None and isinstance(c.v, str) and "str" not in ty: return False
        key = Op("cmp", "==", a, c)
        b = self.choose(key)
        if b: self.dom[a] = {c}
        else:
            self.notin.setdefault(a, set()).add(c)
            if d is not None: self.dom[a] = d - {c}
            if c.v is None: self.nottyp.setdefault(a, set()).add("none")
        return b

    def decide_in(self, a, b):
        if _dtype_name(a) and isinstance(b, Op) and b.op in ("list", "tuple", "set") and all(_dtype_name(x) for x in b.args): return _dtype_name(a) in {_dtype_name(x) for x in b.args}
        if isinstance(b, Op) and b.op in ("list", "tuple", "set") and all(isinstance(x, Const) for x in b.args):
            vals = set(b.args)
            if isinstance(a, Const): return a in vals
            d = self.dom.get(a)
            if d is not None:
                if d <= vals: return True
                if not (d & vals): return False
            if vals <= self.notin.get(a, set()): return False
            r = self.choose(Op("cmp", "in", a, b))
            if r: self.dom[a] = (d & vals) if d is not None else vals - self.notin.get(a, set())
            else:
                self.notin.setdefault(a, set()).update(vals)
                if d is not None: self.dom[a] = d - vals
            return r
        if isinstance(b, Op) and b.op in ("list", "tuple", "set") and not any(isinstance(x, Star) for x in b.args) and a in b.args: return True
        return None

    def decide_type(self, t):
        v, tys = t.args
        tys = frozenset(tys)
        if isinstance(v, Const):
            n = "none" if v.v is None else type(v.v).__name__
            return n in tys or (n == "bool" and "int" in tys)
        if isinstance(v, Op):
            k = {"list": "list", "tuple": "tuple", "dict": "dict", "set": "set"}.get(v.op)
            if k: return k in tys
            if v.op == "fstr": return "str" in tys
            if v.op == "call" and v.args[0] in (EXT("str"), EXT("repr")): return "str" in tys
            if v.op == "obj": return v.args[0] in tys
            if v.op == "enum": return v.args[0] in tys or "Enum" in tys
            if v.op == "func" or v.op == "class" or v.op == "partial": return bool(tys & {"Callable", "FunctionType"})
            if is_expr_term(v):
                return "pl.Expr" in tys if tys <= _TYPES else self._choose_type(t)
        if v in self.dom:
            d = self.dom[v]
            r = {self.decide_type(Op("isinstance", c, tuple(sorted(tys)))) for c in d}
            if len(r) == 1: return r.pop()
        known = self.typ.get(v)
        if known is not None and known <= _CLASSES | tys:
            k2 = known | ({"int"} if False else set())
            if k2 <= tys: return True
            if not (k2 & tys) and (tys <= _CLASSES): return False
        nt = self.nottyp.get(v, set())
        if tys <= nt: return False
        if known is not None and known <= nt: return False
        return self._choose_type(t)

    def _choose_type(self, t):
        v, tys = t.args
        if t in self.facts: return self.facts[t]
        b = self.choose(t)
        self.facts[t] = b
        s = set(tys)
        if b: self.typ[v] = (self.typ[v] & s) if v in self.typ else s
        else:
            self.nottyp.setdefault(v, set()).update(s)
            if v in self.typ: self.typ[v] = self.typ[v] - s
        return b

    # ---------------- statements
    def block(self, body, sc):
        for s in body: self.stmt(s, sc)

    def stmt(self, s, sc):
        self.steps += 1
        if self.steps > self.max_steps: raise Budget()
        self.line = getattr(s, "lineno", self.line)
        k = type(s)
        if k is ast.Expr: self.ev(s.value, sc)
        elif k is ast.Assign:
            v = self.ev(s.value, sc)
            for t in s.targets: self.assign(t, v, sc)
        elif k is ast.AnnAssign:
            if s.value is not None: self.assign(s.target, self.ev(s.value, sc), sc)
        elif k is ast.AugAssign:
            cur = self.ev(_load(s.target), sc)
            v = self.ev(s.value, sc)
            if isinstance(cur, LList) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v)
                r = cur
            else: r = self.binop(_BINOPS[type(s.op)], cur, v)
            self.assign(s.target, r, sc)
        elif k is ast.Return: raise _Ret(self.ev(s.value, sc) if s.value is not None else Const(None))
        elif k is ast.If:
            if self.star and self.only_adds(s.body) and self.only_adds(s.orelse):
                # inside a loop over unknown elements: what is added is added under a condition on the element
                c = self.ev(s.test, sc)
                if not isinstance(c, (Const, LList, LDict, Obj, Closure)):
                    f = freeze(c)
                    if any(isinstance(x, Op) and x.op in ("elem", "key", "val", "index") for x in walk(f)):
                        for body, g in ((s.body, f), (s.orelse, self.negated(f))):
                            if not body: continue
                            self.filters.append(g)
                            try: self.block(body, sc)
                            finally: self.filters.pop()
                        return
                if self.truth(c): self.block(s.body, sc)
                else: self.block(s.orelse, sc)
                return
            if self.truth(self.ev(s.test, sc)): self.block(s.body, sc)
            else: self.block(s.orelse, sc)
        elif k is ast.Raise:
            raise _Raise(freeze(self.ev(s.exc, sc)) if s.exc is not None else Const("reraise"))
        elif k is ast.For: self.do_for(s, sc)
        elif k is ast.While: self.do_while(s, sc)
        elif k is ast.With:
            for it in s.items:
                v = self.ev(it.context_expr, sc)
                if it.optional_vars is not None: self.assign(it.optional_vars, v, sc)
            self.block(s.body, sc)
        elif k is ast.Try:
            if s.handlers and self.truth_term(Op("raises", "%s:%d" % (sc.clo.qual, s.lineno - sc.clo.node.lineno))):
                h = s.handlers[0]
                if h.name: sc.env[h.name] = Op("exc", sc.clo.qual)
                self.block(h.body, sc)
            else:
                try:
                    self.block(s.body, sc)
                    self.block(s.orelse, sc)
                except _Raise as e:
                    if s.handlers:
                        h = s.handlers[0]
                        if h.name: sc.env[h.name] = e.t
                        self.block(h.body, sc)
                    else:
                        self.block(s.finalbody, sc)
                        raise
            self.block(s.finalbody, sc)
        elif k in (ast.FunctionDef, ast.AsyncFunctionDef):
            sc.env[s.name] = Closure(s, sc.clo.mod, env=ChainEnv(sc), name=s.name)
        elif k is ast.ClassDef: sc.env[s.name] = ClassRef(s, sc.clo.mod)
        elif k is ast.Import:
            for a in s.names:
                n = a.name if a.asname else a.name.split(".")[0]
                sc.env[a.asname or n] = ModRef(self.pkg.mods[n]) if n in self.pkg.mods else EXT(n)
        elif k is ast.ImportFrom:
            base = sc.clo.mod.resolve_rel(s)
            for a in s.names:
                r = None
                if base + "." + a.name in self.pkg.mods: r = ModRef(self.pkg.mods[base + "." + a.name])
                elif base in self.pkg.mods: r = self.pkg.lookup(self.pkg.mods[base], a.name)
                sc.env[a.asname or a.name] = r if r is not None else EXT(base + "." + a.name)
        elif k is ast.Pass or k is ast.Global or k is ast.Nonlocal: pass
        elif k is ast.Break: raise _Break()
        elif k is ast.Continue: raise _Continue()
        elif k is ast.Assert:
            if not self.truth(self.ev(s.test, sc)): raise _Raise(Op("call", EXT("AssertionError"), (), ()))
        elif k is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Name): sc.env.pop(t.id, None)
        elif k is ast.Match: self.do_match(s, sc)
        else: raise NotImplementedError(k.__name__)

    def do_match(self, s, sc):
        subj = self.ev(s.subject, sc)
        for c in s.cases:
            if self.match_pat(c.pattern, subj, sc) and (c.guard is None or self.truth(self.ev(c.guard, sc))):
                self.block(c.body, sc)
                return

    def match_pat(self, p, v, sc):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, sc): return False
            if p.name: sc.env[p.name] = v
            return True
        if isinstance(p, ast.MatchValue): return self.truth(self.compare("==", v, self.ev(p.value, sc)))
        if isinstance(p, ast.MatchSingleton): return self.truth(self.compare("is", v, Const(p.value)))
        if isinstance(p, ast.MatchOr): return any(self.match_pat(x, v, sc) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            return self.truth(self.isinstance_(v, self.ev(p.cls, sc)))
        return self.truth_term(Op("match", ast.dump(p), freeze(v)))

    def do_while(self, s, sc):
        """unrolled while the test is decided; a counting loop over an unknown list becomes a loop over its elements; anything else is given up on"""
        t, last = s.test, s.body[-1]
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Call) and isinstance(t.comparators[0].func, ast.Name) \
           and t.comparators[0].func.id == "len" and isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == t.left.id and isinstance(last.value, ast.Constant) and last.value.value == 1 \
           and not any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)) and sc.get(t.left.id) == Const(0):
            self.do_for(ast.For(ast.Name(t.left.id, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [t.comparators[0]], []), s.body[:-1], s.orelse), sc)
            return
        for _ in range(200):
            c = self.ev(s.test, sc)
            if not isinstance(c, (Const, LList)) or isinstance(c, LList) and c.has_star(): raise Budget()
            if not self.truth(c):
                self.block(s.orelse, sc)
                return
            try: self.block(s.body, sc)
            except _Break: return
            except _Continue: pass
        raise Budget()

    def only_adds(self, body):
        """statements that only add to containers"""
        for x in body:
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr in ("append", "add", "extend"): continue
            if isinstance(x, ast.If) and self.only_adds(x.body) and self.only_adds(x.orelse): continue
            if isinstance(x, ast.Pass): continue
            return False
        return True

    def do_for(self, s, sc):
        it = self.iterate(self.ev(s.iter, sc))
        s = _no_continue(s)
        broke = False
        for generic, el in it:
            if generic:
                self.generic_iter(lambda: (self.assign(s.target, el, sc), self.block(s.body, sc)), sc, s.body)
            else:
                self.assign(s.target, el, sc)
                try: self.block(s.body, sc)
                except _Break:
                    broke = True
                    break
                except _Continue: pass
        if not broke: self.block(s.orelse, sc)

    def generic_iter(self, run, sc, body):
        names = {t.id for x in body for n in ast.walk(x) if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign))
                 for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
        before = {n: sc.env[n] for n in names if n in sc.env}
        self.star += 1
        try: run()
        except (_Break, _Continue): pass
        finally: self.star -= 1
        for n, old in before.items():
            new = sc.env.get(n)
            if new is not old and new is not None and not isinstance(old, (LList, LDict)):
                try: sc.env[n] = Op("loop", freeze(old), freeze(new))
                except TypeError: pass
        if getattr(self, "_flags", None): pass

    def iterate(self, v):
        """[(generic?, element)]"""
        if isinstance(v, LList):
            return [(isinstance(x, Star), x.t if isinstance(x, Star) else x) for x in v.e]
        if isinstance(v, LDict):
            return [(isinstance(k, Star), k.t if isinstance(k, Star) else k) for k, _ in v.p]
        if isinstance(v, Const) and isinstance(v.v, (str, tuple, list, range)):
            return [(False, to_value(x)) for x in v.v]
        if isinstance(v, Op) and v.op in ("list", "tuple", "set"):
            return [(isinstance(x, Star), x.t if isinstance(x, Star) else x) for x in v.args]
        if isinstance(v, Op) and v.op == "starred_pairs":
            return [(True, LList(list(v.args), kind="tuple"))]
        if isinstance(v, Op) and v.op == "call" and isinstance(v.args[0], Op) and v.args[0].op == "attr" and v.args[0].args[1] == "items" and not v.args[1]:
            d = v.args[0].args[0]
            return [(True, LList([Op("key", d), Op("val", d)], kind="tuple"))]
        return [(True, Op("elem", freeze(v)))]

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name): sc.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            els = None
            if isinstance(v, LList) and not v.has_star() and len(v.e) == n and not any(isinstance(e, ast.Starred) for e in t.elts): els = v.e
            elif isinstance(v, Op) and v.op in ("tuple", "list") and len(v.args) == n: els = v.args
            if els is None: els = [Op("sub", freeze(v), Const(i)) for i in range(n)]
            for e, x in zip(t.elts, els):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            if isinstance(o, Obj): o.attrs[t.attr] = v
            else: self.record(Op("call", Op("attr", freeze(o), "__setattr__"), (Const(t.attr), freeze(v)), ()), sc)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            k = self.ev(t.slice, sc)
            if isinstance(o, LDict): o.set(freeze(k) if self.star <= o.depth else Star(freeze(k)), v)
            elif isinstance(o, LList) and isinstance(k, Const) and isinstance(k.v, int) and not o.has_star() and -len(o.e) <= k.v < len(o.e): o.e[k.v] = v
            elif isinstance(o, LList): o.e.append(Star(freeze(v)))
            else: self.record(Op("call", Op("attr", freeze(o), "__setitem__"), (freeze(k), freeze(v)), ()), sc)

    # ---------------- expressions
    def ev(self, n, sc):
        k = type(n)
        f = getattr(self, "ev_" + k.__name__, None)
        if f is None: raise NotImplementedError(k.__name__)
        return f(n, sc)

    def ev_Constant(self, n, sc): return Const(n.value)
    def ev_Name(self, n, sc):
        v = sc.get(n.id)
        if v is not None: return v
        v = self.pkg.lookup(sc.clo.mod, n.id)
        if v is not None: return v
        if n.id in ("True", "False", "None"): return Const({"True": True, "False": False, "None": None}[n.id])
        if n.id == "__file__" or n.id == "__name__": return Const(n.id)
        if n.id in BUILTINS: return EXT(n.id)
        return Op("undefined", sc.clo.qual, n.id)
    def ev_Attribute(self, n, sc): return self.getattr(self.ev(n.value, sc), n.attr, sc)
    def ev_List(self, n, sc): return LList(self.elts(n.elts, sc), self.star)
    def ev_Tuple(self, n, sc): return LList(self.elts(n.elts, sc), self.star, "tuple")
    def ev_Set(self, n, sc): return LList(self.elts(n.elts, sc), self.star, "set")
    def elts(self, es, sc):
        out = []
        for e in es:
            if isinstance(e, ast.Starred): out += self.as_elems(self.ev(e.value, sc))
            else: out.append(self.ev(e, sc))
        return out
    def as_elems(self, v):
        if isinstance(v, LList): return list(v.e)
        return [Star(freeze(el)) if g else el for g, el in self.iterate(v)]
    def ev_Dict(self, n, sc):
        d = LDict([], self.star)
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, sc)
            if k is None:
                if isinstance(vv, LDict):
                    for a, b in vv.p: d.set(a, b)
                else: d.p.append((Star(Op("key", freeze(vv))), Op("val", freeze(vv))))
            else: d.set(freeze(self.ev(k, sc)), vv)
        return d
    def ev_JoinedStr(self, n, sc):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(Const(v.value))
            else:
                x = self.ev(v.value, sc)
                if isinstance(x, Const) and v.format_spec is None and v.conversion == -1: parts.append(Const(str(x.v)))
                else: parts.append(freeze(x))
        return self.joined(parts)
    def ev_IfExp(self, n, sc): return self.ev(n.body, sc) if self.truth(self.ev(n.test, sc)) else self.ev(n.orelse, sc)
    def ev_BoolOp(self, n, sc):
        v = None
        isand = isinstance(n.op, ast.And)
        for e in n.values:
            v = self.ev(e, sc)
            if e is n.values[-1]: return v
            b = self.truth(v)
            if isand and not b: return Const(False) if not isinstance(v, Const) else v
            if not isand and b: return v if not _is_cond(v) else Const(True)
        return v
    def ev_UnaryOp(self, n, sc):
        v = self.ev(n.operand, sc)
        if isinstance(n.op, ast.Not):
            return Const(not self.truth(v))
        if isinstance(v, Const):
            try: return Const({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v.v))
            except Exception: pass
        return Op("un", {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)], freeze(v))
    def ev_BinOp(self, n, sc): return self.binop(_BINOPS[type(n.op)], self.ev(n.left, sc), self.ev(n.right, sc))
    def binop(self, o, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            try: return Const(_apply(o, a.v, b.v))
            except Exception: pass
        if o == "+" and isinstance(a, LList) and isinstance(b, LList): return LList(a.e + b.e, self.star, a.kind)
        if o == "+" and isinstance(a, LList): return LList(a.e + self.as_elems(b), self.star, a.kind)
        if o == "+" and isinstance(b, LList): return LList(self.as_elems(a) + b.e, self.star, b.kind)
        if o == "|" and isinstance(a, LDict) and isinstance(b, LDict):
            d = LDict(a.p, self.star)
            for k, v in b.p: d.set(k, v)
            return d
        if o == "*" and isinstance(a, LList) and isinstance(b, Const) and isinstance(b.v, int): return LList(a.e * b.v, self.star, a.kind)
        if o == "%" and isinstance(a, Const) and isinstance(a.v, str):
            r = self.percent(a.v, b)
            if r is not None: return r
        if o == "+" and isinstance(a, Term) and isinstance(b, Term) and (self.strish(a) or self.strish(b)):
            pa = list(a.args) if isinstance(a, Op) and a.op == "fstr" else [a]
            pb = list(b.args) if isinstance(b, Op) and b.op == "fstr" else [b]
            return self.joined(pa + pb)
        return Op("bin", o, freeze(a), freeze(b))
    def strish(self, t): return _is_strish(t) or isinstance(t, (Sym, Op)) and set(self.typ.get(t, ())) == {"str"}
    def joined(self, parts):
        m = []
        for p in parts:
            p = freeze(p)
            for q in (list(p.args) if isinstance(p, Op) and p.op == "fstr" else [p]):
                if isinstance(q, Const): q = Const(str(q.v))
                elif isinstance(q, Op) and q.op == "call" and q.args[0] == EXT("str") and len(q.args[1]) == 1: q = q.args[1][0]
                if q == Const(""): continue
                if m and isinstance(q, Const) and isinstance(m[-1], Const): m[-1] = Const(m[-1].v + q.v)
                else: m.append(q)
        if not m: return Const("")
        return m[0] if len(m) == 1 and isinstance(m[0], Const) else Op("fstr", *m)
    def percent(self, f, b):
        fs = f.split("%s")
        if any("%" in x for x in fs): return None
        b = list(b.e) if isinstance(b, LList) and b.kind == "tuple" else [b]
        if len(b) != len(fs) - 1 or any(isinstance(x, Star) for x in b): return None
        out = [Const(fs[0])]
        for x, y in zip(b, fs[1:]): out += [x, Const(y)]
        return self.joined(out)
    def ev_Compare(self, n, sc):
        left = self.ev(n.left, sc)
        r = None
        for i, (o, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, sc)
            r = self.compare(_CMPOPS[type(o)], left, right)
            if i < len(n.ops) - 1:
                if not self.truth(r): return Const(False)
            left = right
        return r
    def compare(self, o, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                if o in ("is", "is not"): return Const((a == b) == (o == "is"))
                return Const({"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y,
                              ">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "in": lambda x, y: x in y, "not in": lambda x, y: x not in y}[o](a.v, b.v))
            except Exception: pass
        if o in ("is", "is not", "==", "!=") and isinstance(b, Const) and b.v is None and isinstance(a, (LList, LDict, Obj, Closure, Partial, ClassRef, ModRef)):
            return Const(o in ("is not", "!="))
        if o in ("is", "is not", "==", "!=") and isinstance(a, Op) and isinstance(b, Op) and a.op == b.op == "enum":
            return Const((a == b) == (o in ("is", "==")))
        if o in ("in", "not in") and isinstance(b, LDict) and not any(isinstance(k, Star) for k, _ in b.p):
            b = LList([k for k, _ in b.p], kind="tuple")
        if o in ("in", "not in") and isinstance(b, (LList, Op)) and isinstance(a, Op) and a.op == "enum":
            es = b.e if isinstance(b, LList) else b.args if b.op in ("tuple", "list", "set") else None
            if es is not None and all(isinstance(x, Op) and x.op == "enum" for x in es): return Const((a in es) == (o == "in"))
        return Op("cmp", o, freeze(a), freeze(b))
    def ev_Subscript(self, n, sc):
        o = self.ev(n.value, sc)
        if isinstance(n.slice, ast.Slice):
            lo, hi, st = [self.ev(x, sc) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            c = [x.v if isinstance(x, Const) else (None if x is None else "?") for x in (lo, hi, st)]
            if "?" not in c and isinstance(o, LList) and not o.has_star(): return LList(o.e[slice(*c)], self.star, o.kind)
            if "?" not in c and isinstance(o, Const):
                try: return Const(o.v[slice(*c)])
                except Exception: pass
            if "?" not in c and isinstance(o, LList) and c[1] is None and c[2] is None and isinstance(c[0], int) and 0 <= c[0] <= len(o.e) and not any(isinstance(x, Star) for x in o.e[:c[0]]):
                return LList(o.e[c[0]:], self.star, o.kind)
            return Op("sub", freeze(o), Op("slice", *[freeze(x) if x is not None else Const(None) for x in (lo, hi, st)]))
        k = self.ev(n.slice, sc)
        if isinstance(o, LList) and len(o.e) == 1 and isinstance(o.e[0], Star) and isinstance(k, Op) and k.op == "elem" and k.args[0] == Op("range", Op("len", freeze(o))): return o.e[0].t
        if self.model is not None:
            r = self.model.sub(self, o, k)
            if r is not None: return r
        if isinstance(o, LDict):
            fk = freeze(k)
            v = o.get(fk)
            if v is not None: return v
            if isinstance(fk, Const) and all(isinstance(kk, Const) for kk, _ in o.p):
                raise _Raise(Op("call", EXT("KeyError"), (fk,), ()))
            if o.p and all(isinstance(kk, Const) for kk, _ in o.p):
                for kk, v in o.p:
                    if self.truth_term(Op("cmp", "==", fk, kk)): return v
                raise _Raise(Op("call", EXT("KeyError"), (fk,), ()))
        if isinstance(o, LList) and isinstance(k, Const) and isinstance(k.v, int):
            pre = o.e[:k.v + 1] if k.v >= 0 else o.e[k.v:]
            if not any(isinstance(x, Star) for x in pre):
                try: return o.e[k.v]
                except IndexError: raise _Raise(Op("call", EXT("IndexError"), (), ()))
        if isinstance(o, Const) and isinstance(k, Const):
            try: return to_value(o.v[k.v])
            except Exception: pass
        if isinstance(o, Op) and o.op in ("list", "tuple") and isinstance(k, Const) and isinstance(k.v, int) and not any(isinstance(x, Star) for x in o.args):
            try: return o.args[k.v]
            except IndexError: pass
        if isinstance(o, ClassRef) and o.is_enum() and isinstance(k, Const): return Op("enum", o.name, k.v)
        return Op("sub", freeze(o), freeze(k))
    def ev_Slice(self, n, sc):
        return Op("slice", *[freeze(self.ev(x, sc)) if x is not None else Const(None) for x in (n.lower, n.upper, n.step)])
    def ev_Starred(self, n, sc): return self.ev(n.value, sc)
    def ev_Lambda(self, n, sc): return Closure(n, sc.clo.mod, env=ChainEnv(sc), name="<lambda>")
    def ev_ListComp(self, n, sc): return LList(self.comp(n, sc), self.star)
    def ev_SetComp(self, n, sc): return LList(self.comp(n, sc), self.star, "set")
    def ev_GeneratorExp(self, n, sc): return LList(self.comp(n, sc), self.star, "tuple")
    def ev_DictComp(self, n, sc):
        d = LDict([], self.star)
        for e in self.comp(n, sc, lambda s2: LList([self.ev(n.key, s2), self.ev(n.value, s2)], kind="tuple")):
            g = isinstance(e, Star)
            e = e.t if g else e
            k, v = (e.e if isinstance(e, LList) else e.args)
            d.p.append((Star(freeze(k)) if g else freeze(k), v))
        return d
    def comp(self, n, sc, elt=None):
        out = []
        s2 = Scope(dict(), sc.clo, parent=sc)
        elt = elt or (lambda s: self.ev(n.elt, s))
        def go(i, generic):
            if i == len(n.generators):
                v = elt(s2)
                out.append(Star(freeze(v)) if generic else v)
                return
            g = n.generators[i]
            for gen, el in self.iterate(self.ev(g.iter, s2)):
                self.assign(g.target, el, s2)
                if gen: self.star += 1
                try:
                    ok, conds = True, []
                    for c in g.ifs:
                        cv = self.ev(c, s2)
                        if gen or generic:
                            # a filter over unknown elements: kept symbolically
                            if isinstance(cv, Const):
                                if not cv.v: ok = False
                            else: conds.append(freeze(cv))
                        elif not self.truth(cv): ok = False
                    if ok:
                        before = len(out)
                        go(i + 1, generic or gen)
                        for j in range(before, len(out)):
                            if conds:
                                x = out[j]
                                x = x.t if isinstance(x, Star) else freeze(x)
                                out[j] = Star(Op("filtered", x, *conds))
                finally:
                    if gen: self.star -= 1
        go(0, False)
        return out
    def ev_NamedExpr(self, n, sc):
        v = self.ev(n.value, sc)
        self.assign(n.target, v, sc)
        return v
    def ev_Await(self, n, sc): return self.ev(n.value, sc)
    def ev_Yield(self, n, sc): return Op("yield", freeze(self.ev(n.value, sc)) if n.value else Const(None))
    def ev_FormattedValue(self, n, sc): return self.ev(n.value, sc)

    # ---------------- attributes and calls
    def getattr(self, o, a, sc):
        if isinstance(o, ModRef):
            v = self.pkg.lookup(o.mod, a)
            if v is None and o.mod.name + "." + a in self.pkg.mods: v = ModRef(self.pkg.mods[o.mod.name + "." + a])
            return v if v is not None else EXT(o.mod.name + "." + a)
        if isinstance(o, Obj):
            if a in o.attrs: return o.attrs[a]
            m = o.cls.method(a)
            if m is not None:
                decs = [getattr(d, "id", "") for d in m.decorator_list]
                c = Closure(m, o.cls.mod, self_=None if "staticmethod" in decs else o, cls=o.cls)
                if "property" in decs: return self.invoke(c, [], {}, sc)
                return c
            return Op("attr", Sym("self"), a)
        if isinstance(o, ClassRef):
            if o.is_enum():
                for x in o.node.body:
                    if isinstance(x, ast.Assign) and getattr(x.targets[0], "id", None) == a and isinstance(x.value, ast.Constant):
                        return Op("enum", o.name, x.value.value)
            m = o.method(a)
            if m is not None:
                decs = [getattr(d, "id", "") for d in m.decorator_list]
                return Closure(m, o.mod, self_=o if "classmethod" in decs else None, cls=o)
            return Op("attr", freeze(o), a)
        if isinstance(o, Op) and o.op == "ext": return EXT(o.args[0] + "." + a)
        if isinstance(o, (LList, LDict, Closure, Partial)): return ("bound", o, a)
        if self.model is not None:
            r = self.model.getattr(self, o, a)
            if r is not None: return r
        return Op("attr", freeze(o), a)

    def ev_Call(self, n, sc):
        f = self.ev(n.func, sc)
        args, kw, starkw = [], {}, []
        for a in n.args:
            if isinstance(a, ast.Starred): args += self.as_elems(self.ev(a.value, sc))
            else: args.append(self.ev(a, sc))
        for k in n.keywords:
            v = self.ev(k.value, sc)
            if k.arg is not None: kw[k.arg] = v
            elif isinstance(v, LDict):
                for kk, vv in v.p:
                    if isinstance(kk, Const): kw[kk.v] = vv
                    else: starkw.append(("**", Op("dict", (kk if isinstance(kk, Star) else freeze(kk), freeze(vv)))))
            else: starkw.append(("**", freeze(v)))
        line = self.line
        self.line = getattr(n, "lineno", self.line)
        try: return self.call(f, args, kw, starkw, sc)
        finally: self.line = line

    def call(self, f, args, kw, starkw, sc):
        if isinstance(f, tuple) and f and f[0] == "bound": return self.bound_method(f[1], f[2], args, kw, sc)
        if isinstance(f, Partial):
            k = dict(f.kw); k.update(kw)
            return self.call(f.f, list(f.args) + args, k, starkw, sc)
        if isinstance(f, Closure):
            return self.invoke(f, args, kw, sc, starkw)
        if isinstance(f, ClassRef): return self.instantiate(f, args, kw, sc, starkw)
        if isinstance(f, Op) and f.op == "ext":
            r = self.builtin(f.args[0], args, kw, sc)
            if r is not None: return r
        if self.model is not None and isinstance(f, Op) and f.op == "attr" and not starkw:
            r = self.model.call(self, f.args[0], f.args[1], args, kw)
            if r is not None:
                self.record(Op("call", freeze(f), tuple(freeze(a) for a in args), tuple(sorted(((k, freeze(v)) for k, v in kw.items()), key=lambda z: z[0]))), sc)
                return r
        if isinstance(f, Op) and f.op == "attr":
            r = self.method(f.args[0], f.args[1], args, kw)
            if r is not None: return r
        t = Op("call", freeze(f), tuple(freeze(a) for a in args), tuple(sorted(((k, freeze(v)) for k, v in kw.items()), key=lambda z: z[0])) + tuple(starkw))
        self.record(t, sc)
        return t

    def record(self, t, sc):
        self.calls.append(t)
        self.sites.append((self.cur[-1], self.line))

    def instantiate(self, c, args, kw, sc, starkw=()):
        if c.is_enum():
            if len(args) == 1 and isinstance(args[0], Const): return Op("enum", c.name, args[0].v)
            if len(args) == 1 and isinstance(args[0], Op) and args[0].op == "enum": return args[0]
            return Op("call", freeze(c), tuple(freeze(a) for a in args), ())
        m = c.method("__init__")
        o = Obj(c)
        if m is not None:
            self.invoke(Closure(m, c.mod, self_=o, cls=c), args, kw, sc, starkw)
            return o
        if c.is_dataclass():
            fs = c.fields()
            for i, (n, d) in enumerate(fs):
                if i < len(args) and not isinstance(args[i], Star): o.attrs[n] = args[i]
                elif n in kw: o.attrs[n] = kw[n]
                elif d is not None: o.attrs[n] = self.ev(d, Scope({}, Closure(ast.parse("lambda: 0", mode="eval").body, c.mod)))
                else: o.attrs[n] = Op("missing", c.name, n)
            self.record(Op("call", freeze(c), tuple(freeze(a) for a in args), tuple(sorted((k, freeze(v)) for k, v in kw.items()))), sc)
            return o
        return Op("call", freeze(c), tuple(freeze(a) for a in args), tuple(sorted((k, freeze(v)) for k, v in kw.items())))

    def invoke(self, c, args, kw, sc, starkw=()):
        n = c.node
        if c.self_ is not None: args = [c.self_] + args
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env, extra, i = {}, [], 0
        for x in args:
            if isinstance(x, Star):
                # unknown number of positionals: they can only go to *args here
                extra.append(x); i = max(i, len(names)) if a.vararg else i
                continue
            if i < len(names): env[names[i]] = x; i += 1
            else: extra.append(x)
        if a.vararg: env[a.vararg.arg] = LList(extra, self.star, "tuple")
        elif extra and not any(isinstance(x, Star) for x in extra):
            raise _Raise(Op("call", EXT("TypeError"), (Const("too many positional arguments for " + c.qual),), ()))
        kws = set(names) | {x.arg for x in a.kwonlyargs}
        rest = []
        for k, v in kw.items():
            if k in kws:
                if k in env:
                    raise _Raise(Op("call", EXT("TypeError"), (Const("multiple values for %s of %s" % (k, c.qual)),), ()))
                env[k] = v
            else: rest.append((Const(k), v))
        if a.kwarg: env[a.kwarg.arg] = LDict(rest + [(Star(Op("key", t)), Op("val", t)) for _, t in starkw], self.star)
        elif rest:
            raise _Raise(Op("call", EXT("TypeError"), (Const("unexpected argument %s of %s" % (rest[0][0].v, c.qual)),), ()))
        dsc = Scope({}, c)
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x.arg not in env: env[x.arg] = self.ev(d, dsc)
        for x in pos + a.kwonlyargs:
            if x.arg not in env:
                if starkw or any(isinstance(z, Star) for z in extra):
                    env[x.arg] = Op("spread", x.arg, *[t for _, t in starkw], *[z.t for z in extra if isinstance(z, Star)])
                else: raise _Raise(Op("call", EXT("TypeError"), (Const("missing argument %s of %s" % (x.arg, c.qual)),), ()))
        if not isinstance(n, ast.Lambda):
            try: self.binds.append((self.cur[-1], c, {k: freeze(v) for k, v in env.items()}, self.line))
            except TypeError: pass
        if self.depth >= self.max_depth or c.qual in self.opaque or (not isinstance(n, ast.Lambda) and self.nodes.count(id(n)) >= 3):
            t = Op("call", Op("pkg", c.qual), tuple(freeze(env[x.arg]) for x in pos if x.arg != "self"),
                   tuple((k, freeze(v)) for k, v in sorted(env.items()) if k not in {x.arg for x in pos}))
            self.record(t, sc)
            return t
        self.depth += 1
        self.cur.append(c.qual)
        self.nodes.append(id(n))
        self.inlined.add(c.qual)
        line = self.line
        try: return self.exec_body(c, env)
        finally:
            self.depth -= 1
            self.cur.pop()
            self.nodes.pop()
            self.line = line

    def negated(self, t):
        if isinstance(t, Op) and t.op == "not": return t.args[0]
        if isinstance(t, Op) and t.op == "cmp" and t.args[0] in _ANYNEG: return Op("cmp", _ANYNEG[t.args[0]], t.args[1], t.args[2])
        return Op("not", t)

    def added(self, e, o):
        """e as an element added to o: generic inside a loop over unknown elements, under the conditions in force"""
        if self.star <= o.depth and not self.filters: return e
        g = isinstance(e, Star)
        x = e.t if g else freeze(e)
        if self.filters: x = Op("filtered", x, *self.filters)
        return Star(x)

    def list_extend(self, o, v):
        for e in self.as_elems(v):
            o.e.append(e if isinstance(e, Star) and not self.filters else self.added(e, o))

    def bound_method(self, o, m, args, kw, sc):
        if isinstance(o, LList):
            if m == "append":
                o.e.append(self.added(args[0], o))
                return Const(None)
            if m == "extend":
                self.list_extend(o, args[0]); return Const(None)
            if m == "insert":
                i = args[0].v if isinstance(args[0], Const) else len(o.e)
                o.e.insert(i, self.added(args[1], o)); return Const(None)
            if m == "copy": return LList(o.e, self.star, o.kind)
            if m == "pop":
                if not o.has_star() and (not args or isinstance(args[0], Const)):
                    try: return o.e.pop(*[x.v for x in args])
                    except IndexError: raise _Raise(Op("call", EXT("IndexError"), (), ()))
            if m == "add": o.e.append(self.added(args[0], o)); return Const(None)
            if m == "index" and isinstance(args[0], Const) and not o.has_star():
                for i, x in enumerate(o.e):
                    if x == args[0]: return Const(i)
            if m in ("remove", "clear", "sort", "reverse", "update", "pop", "discard"):
                t = Op("call", Op("attr", freeze(o), m), tuple(freeze(x) for x in args), ())
                if m == "clear": o.e = []
                elif m == "reverse" and not o.has_star(): o.e.reverse()
                elif m == "update": self.list_extend(o, args[0])
                else: o.e = [Star(Op("elem", t))]
                return Op("elem", t) if m == "pop" else Const(None)
            if m == "__iter__": return o
        if isinstance(o, LDict):
            if m == "get":
                k = freeze(args[0])
                v = o.get(k)
                if v is not None: return v
                if isinstance(k, Const) and all(isinstance(kk, Const) for kk, _ in o.p): return args[1] if len(args) > 1 else Const(None)
                if o.p and all(isinstance(kk, Const) for kk, _ in o.p):
                    for kk, v in o.p:
                        if self.truth_term(Op("cmp", "==", k, kk)): return v
                    return args[1] if len(args) > 1 else Const(None)
            if m == "items": return LList([Star(Op("tuple", k.t, freeze(v))) if isinstance(k, Star) else LList([k, v], kind="tuple") for k, v in o.p], self.star)
            if m == "keys": return LList([k for k, _ in o.p], self.star)
            if m == "values": return LList([Star(freeze(v)) if isinstance(k, Star) else v for k, v in o.p], self.star)
            if m == "copy": return LDict(o.p, self.star)
            if m == "update":
                for a in args:
                    if isinstance(a, LDict):
                        for k, v in a.p: o.set(k, v)
                    else: o.p.append((Star(Op("key", freeze(a))), Op("val", freeze(a))))
                for k, v in kw.items(): o.set(Const(k), v)
                return Const(None)
            if m == "pop" and isinstance(args[0], Const):
                v = o.get(args[0])
                if v is not None:
                    o.p = [(k, x) for k, x in o.p if k != args[0]]
                    return v
                if len(args) > 1: return args[1]
            if m == "setdefault":
                v = o.get(freeze(args[0]))
                if v is not None: return v
                o.set(freeze(args[0]), args[1]); return args[1]
        t = Op("call", Op("attr", freeze(o), m), tuple(freeze(a) for a in args), tuple(sorted((k, freeze(v)) for k, v in kw.items())))
        self.record(t, sc)
        return t

    def method(self, o, m, args, kw):
        if isinstance(o, Const) and isinstance(o.v, str) and m in _PURE_STR and all(isinstance(a, Const) for a in args) and not kw:
            try: return to_value(getattr(o.v, m)(*[a.v for a in args]))
            except Exception: return None
        if isinstance(o, Const) and m == "join" and args and isinstance(args[0], LList) and not args[0].has_star() and all(isinstance(x, Const) for x in args[0].e):
            return Const(o.v.join(x.v for x in args[0].e))
        if isinstance(o, Op) and o.op == "enum" and m == "value": return Const(o.args[1])
        if isinstance(o, Const) and isinstance(o.v, str) and m == "join" and args and isinstance(args[0], LList) and not args[0].has_star():
            out = []
            for i, x in enumerate(args[0].e): out += ([o] if i else []) + [x]
            return self.joined(out)
        if isinstance(o, Const) and isinstance(o.v, str) and m == "format" and not kw and o.v.count("{}") == len(args) and o.v.count("{") == len(args) and not any(isinstance(x, Star) for x in args):
            return self.percent(o.v.replace("%", "%%").replace("{}", "%s"), LList(list(args), kind="tuple")) if "%" not in o.v else None
        return None

    def isinstance_(self, v, tv):
        tys = []
        for x in (tv.e if isinstance(tv, LList) else tv.args if isinstance(tv, Op) and tv.op == "tuple" else [tv]):
            if isinstance(x, Op) and x.op == "ext": tys.append(x.args[0].replace("polars.", "pl."))
            elif isinstance(x, ClassRef): tys.append(x.name)
            else: tys.append(show(freeze(x)))
        tys = tuple(sorted(set(tys)))
        if isinstance(v, Obj): return Const(v.cls.name in tys)
        if isinstance(v, (Closure, Partial)): return Const(bool(set(tys) & {"Callable", "typing.Callable"}))
        fv = freeze(v)
        if isinstance(fv, Op) and fv.op == "call" and isinstance(fv.args[0], Op) and fv.args[0].op == "ext" and fv.args[0].args[0] in ("float", "int", "str", "bool"):
            k = fv.args[0].args[0]
            if k in tys or (k == "bool" and "int" in tys): return Const(True)
            if set(tys) <= {"float", "int", "str", "bool", "list", "tuple", "dict", "pl.Expr", "pl.Series", "numpy.ndarray"}: return Const(False)
        return Op("isinstance", freeze(v), tys)

    def builtin(self, f, args, kw, sc):
        cs = [a.v for a in args] if all(isinstance(a, Const) for a in args) and not kw else None
        if f == "isinstance" and len(args) == 2: return self.isinstance_(args[0], args[1])
        if f == "len" and len(args) == 1:
            a = args[0]
            if isinstance(a, LList) and not a.has_star(): return Const(len(a.e))
            if isinstance(a, LDict) and not any(isinstance(k, Star) for k, _ in a.p): return Const(len(a.p))
            if isinstance(a, Const) and isinstance(a.v, str): return Const(len(a.v))
            return Op("len", freeze(a))
        if f in ("abs", "float", "int", "str", "bool", "round", "min", "max", "sum", "pow", "divmod") and cs is not None and cs:
            try: return to_value({"abs": abs, "float": float, "int": int, "str": str, "bool": bool, "round": round, "min": min, "max": max, "sum": sum, "pow": pow, "divmod": divmod}[f](*cs))
            except ValueError: raise _Raise(Op("call", EXT("ValueError"), tuple(args), ()))
            except Exception: return None
        if f == "bool" and len(args) == 1 and _is_cond(args[0]): return args[0]
        if f in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
            if not args: return LList([], self.star, "set" if f in ("set", "frozenset") else f if f in ("list", "tuple") else "list")
            a = args[0]
            kind = {"tuple": "tuple", "set": "set", "frozenset": "set"}.get(f, "list")
            if isinstance(a, LList):
                if f in ("sorted", "reversed") and len(a.e) > 1:
                    if f == "reversed" and not a.has_star(): return LList(a.e[::-1], self.star, "list")
                    if f == "sorted" and not kw and all(isinstance(x, Const) for x in a.e):
                        try: return LList([Const(v) for v in sorted(x.v for x in a.e)], self.star)
                        except Exception: pass
                    return LList([Star(Op("elem", Op("call", EXT(f), (freeze(a),), tuple((k, freeze(v)) for k, v in kw.items()))))], self.star, "list")
                if kind == "set":
                    out = []
                    for x in a.e:
                        if not any(freeze(y) == freeze(x) for y in out): out.append(x)
                    return LList(out, self.star, kind)
                return LList(a.e, self.star, kind)
            if isinstance(a, LDict): return LList([k for k, _ in a.p], self.star, kind)
            if isinstance(a, Const) and isinstance(a.v, str): return LList([Const(x) for x in a.v], self.star, kind)
            if isinstance(a, Term):
                fa = freeze(a)
                if isinstance(fa, Op) and fa.op in ("list", "tuple", "set"): return LList(list(fa.args), self.star, kind)
                if f in ("list", "tuple", "iter"): return LList([Star(Op("elem", fa))], self.star, kind)
                return LList([Star(Op("elem", Op("call", EXT(f), (fa,), tuple((k, freeze(v)) for k, v in kw.items()))))], self.star, kind)
        if f == "dict":
            if not args: return LDict([(Const(k), v) for k, v in kw.items()], self.star)
            if isinstance(args[0], LDict):
                d = LDict(args[0].p, self.star)
                for k, v in kw.items(): d.set(Const(k), v)
                return d
        if f.startswith("itertools.") and args and f.split(".")[-1] in ("combinations", "permutations", "combinations_with_replacement", "product", "chain"):
            k = f.split(".")[-1]
            ls = [a for a in args if isinstance(a, LList)]
            if all(not a.has_star() for a in ls) and all(isinstance(a, (LList, Const)) for a in args):
                try:
                    rest = [a.v for a in args if isinstance(a, Const)]
                    kk = {x: y.v for x, y in kw.items() if isinstance(y, Const)}
                    if k == "chain": return LList([x for a in ls for x in a.e], self.star, "tuple")
                    r = list(itertools.islice(getattr(itertools, k)(*[a.e for a in ls], *rest, **kk), 0, 65))
                    if len(r) <= 64: return LList([LList(list(x), kind="tuple") for x in r], self.star, "tuple")
                except TypeError: pass
        if f == "itertools.chain.from_iterable" and len(args) == 1 and isinstance(args[0], LList) and not args[0].has_star() and all(isinstance(x, LList) for x in args[0].e):
            return LList([y for x in args[0].e for y in x.e], self.star, "tuple")
        if f in ("polars.reduce", "functools.reduce", "polars.fold"):
            fn = args[0] if args and f != "polars.fold" else kw.get("function")
            xs = args[1] if len(args) > 1 and f != "polars.fold" else kw.get("exprs")
            init = (args[2] if len(args) > 2 else None) if f != "polars.fold" else kw.get("acc")
            if isinstance(fn, (Closure, Partial, Op)) and isinstance(xs, LList) and not xs.has_star() and (xs.e or init is not None) and set(kw) <= {"function", "exprs", "acc"}:
                es = ([init] if init is not None else []) + list(xs.e)
                r = es[0]
                for x in es[1:]: r = self.call(fn, [r, x], {}, [], sc)
                return r
        if f.startswith("operator.") and len(args) == 2 and f[9:] in _OPERATOR: return self.binop(_OPERATOR[f[9:]], args[0], args[1])
        if f == "range" and cs is not None:
            r = range(*cs)
            if len(r) <= 64: return LList([Const(x) for x in r], self.star, "tuple")
        if f == "range": return Op("range", *[freeze(a) for a in args])
        if f == "enumerate" and args:
            a = args[0]
            if isinstance(a, (LList, LDict)) and not any(g for g, _ in self.iterate(a)):
                st = args[1].v if len(args) > 1 and isinstance(args[1], Const) else 0
                return LList([LList([Const(i + st), x], kind="tuple") for i, (_, x) in enumerate(self.iterate(a))], self.star, "tuple")
            return LList([Star(Op("tuple", Op("index", freeze(a)), freeze(el))) for g, el in self.iterate(a)], self.star, "tuple")
        if f == "zip" and args and not kw.get("strict", None):
            its = [self.iterate(a) for a in args]
            if all(not g for it in its for g, _ in it): return LList([LList(list(x), kind="tuple") for x in zip(*[[e for _, e in it] for it in its])], self.star, "tuple")
            return LList([Star(Op("tuple", *[freeze(it[min(len(it) - 1, 0)][1]) if it else Const(None) for it in its]))], self.star, "tuple")
        if f == "map" and len(args) == 2:
            out = []
            for g, el in self.iterate(args[1]):
                if g: self.star += 1
                try: v = self.call(args[0], [el], {}, [], sc)
                finally:
                    if g: self.star -= 1
                out.append(Star(freeze(v)) if g else v)
            return LList(out, self.star, "tuple")
        if f in ("any", "all") and len(args) == 1 and isinstance(args[0], LList):
            a = args[0]
            if not a.has_star():
                for x in a.e:
                    b = self.truth(x)
                    if b and f == "any": return Const(True)
                    if not b and f == "all": return Const(False)
                return Const(f == "all")
            return Op(f, freeze(a))
        if f == "hasattr" and len(args) == 2 and isinstance(args[1], Const) and isinstance(args[1].v, str):
            k = args[0].kind if isinstance(args[0], LList) else "dict" if isinstance(args[0], LDict) else args[0].op if isinstance(args[0], Op) and args[0].op in ("list", "tuple", "set", "dict") else type(args[0].v).__name__ if isinstance(args[0], Const) else None
            ty = {"list": list, "tuple": tuple, "set": set, "dict": dict, "str": str, "int": int, "float": float, "bool": bool, "NoneType": type(None)}.get(k)
            if ty is not None: return Const(hasattr(ty, args[1].v))
        if f == "hasattr" and len(args) == 2: return Op("hasattr", freeze(args[0]), freeze(args[1]))
        if f == "getattr" and len(args) >= 2 and isinstance(args[1], Const):
            r = self.getattr(args[0], args[1].v, sc)
            return r if not isinstance(r, tuple) else None
        if f == "functools.partial" and args: return Partial(args[0], args[1:], kw)
        if f == "typing.cast" and len(args) == 2: return args[1]
        if f == "copy.copy" or f == "copy.deepcopy":
            return copy.deepcopy(args[0])
        return None

class Scope:
    def __init__(self, env, clo, parent=None): self.env, self.clo, self.parent = env, clo, parent
    def get(self, n):
        if n in self.env: return self.env[n]
        if self.parent is not None: return self.parent.get(n)
        if self.clo.env is not None: return self.clo.env.get(n)
        return None

class ChainEnv:
    def __init__(self, sc): self.sc = sc
    def get(self, n): return self.sc.get(n)
    def __contains__(self, n): return self.sc.get(n) is not None
    def __getitem__(self, n): return self.sc.get(n)

_NOCONT = {}
def _no_continue(s):
    """`if c: continue; rest` as `if not c: rest`"""
    k = id(s)
    if k in _NOCONT: return _NOCONT[k][1]
    def fix(body):
        for i, x in enumerate(body):
            if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.Continue) and i + 1 < len(body):
                n = ast.If(ast.UnaryOp(ast.Not(), x.test), fix(body[i + 1:]), [])
                return body[:i] + [ast.copy_location(n, x)]
        return body
    b = fix(s.body)
    r = s if b is s.body or len(b) == len(s.body) and all(p is q for p, q in zip(b, s.body)) else ast.fix_missing_locations(ast.copy_location(ast.For(s.target, s.iter, b, s.orelse), s))
    _NOCONT[k] = (s, r)
    return r

def _load(t):
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t

def _apply(o, a, b):
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b,
            "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[o]()

def _is_strish(t): return (isinstance(t, Const) and isinstance(t.v, str)) or (isinstance(t, Op) and t.op == "fstr")
def _is_cond(t): return isinstance(t, Op) and t.op in ("cmp", "not", "isinstance", "any", "all", "hasattr") or (isinstance(t, Const) and isinstance(t.v, bool))
def _known_nonnull(t): return is_expr_term(t)

_EXPR_FUNCS = {"col", "lit", "struct", "len", "sum_horizontal", "max_horizontal", "min_horizontal", "mean_horizontal", "all_horizontal", "any_horizontal",
               "concat_list", "int_range", "element", "sql_expr", "all", "count", "corr", "cov", "fold", "reduce", "concat_str", "coalesce", "nth", "exclude",
               "format", "arange", "first", "last", "sum", "mean", "max", "min", "std", "var", "rolling_corr", "cum_sum", "quantile", "median", "n_unique", "int_ranges"}
def is_expr_term(t):
    """certainly a polars expression"""
    if isinstance(t, Star): return False
    if not isinstance(t, Op): return False
    if t.op == "call":
        f = t.args[0]
        if isinstance(f, Op) and f.op == "ext":
            p = f.args[0]
            return (p.startswith("polars.") and p.split(".")[1] in _EXPR_FUNCS and p.count(".") == 1) or p.startswith("polars.selectors.") or p == "polars.Expr.deserialize" or p.endswith("register_plugin_function")
        if isinstance(f, Op) and f.op == "pkg": return f.args[0] in COERCIONS
        if isinstance(f, Op) and f.op == "attr":
            b = f.args[0]
            while isinstance(b, Op) and b.op == "attr" and b.args[1] in ("list", "str", "dt", "struct", "name", "cat", "arr", "meta", "bin"): b = b.args[0]
            return is_expr_term(b)
        if isinstance(f, Op) and f.op == "call": return is_expr_term(f)
    if t.op == "bin": return is_expr_term(t.args[1]) or is_expr_term(t.args[2])
    if t.op == "un": return is_expr_term(t.args[1])
    if t.op == "cmp": return t.args[0] not in ("is", "is not", "in", "not in") and (is_expr_term(t.args[1]) or is_expr_term(t.args[2]))
    return False

COERCIONS = set()
def expr_coercions(pkg):
    """package functions that only turn their single argument into an expression: every returning path yields the argument itself or
    pl.col / pl.lit / pl.sql_expr of it (possibly aliased).  They are kept as one node instead of forking on the argument's type."""
    out = set()
    wraps = {EXT("polars.col"), EXT("polars.lit"), EXT("polars.sql_expr")}
    for m in pkg.mods.values():
        for n, f in m.functions().items():
            if len(f.args.args) != 1 or f.args.vararg or f.args.kwonlyargs or f.args.kwarg: continue
            if sum(1 for _ in ast.walk(f)) > 400: continue
            p = Sym(f.args.args[0].arg)
            try: ps = Interp(pkg, max_paths=40, opaque=set(), max_steps=4000).run(Closure(f, m))
            except Exception: continue
            ok, n_ext = bool(ps), 0
            for q in ps:
                if q.outcome == "raise": continue
                v = q.value
                while isinstance(v, Op) and v.op == "call" and isinstance(v.args[0], Op) and v.args[0].op == "attr" and v.args[0].args[1] == "alias": v = v.args[0].args[0]
                if q.outcome == "return" and v == p: continue
                if q.outcome == "return" and isinstance(v, Op) and v.op == "call" and v.args[0] in wraps and len(v.args[1]) == 1 and p.name in deps(v.args[1][0]):
                    n_ext += 1; continue
                ok = False; break
            if ok and n_ext: out.add(m.name + "." + n)
    COERCIONS.clear(); COERCIONS.update(out)
    return out

# ------------------------------------------------------------------ native call sites

@dataclass(frozen=True)
class Native:
    """one call of register_plugin_function on one path"""
    symbol: object
    args: tuple
    kwargs: tuple       # ((key, term), ..) or None when not a literal dictionary
    flags: tuple        # ((name, term), ..)
    term: object
    site: tuple

_FLAGS = ("is_elementwise", "returns_scalar", "changes_length", "cast_to_supertype", "pass_name_to_apply", "input_wildcard_expansion")
def natives(path):
    out = []
    for t, s in zip(path.calls, path.sites):
        f = t.args[0]
        if isinstance(f, Op) and f.op == "ext" and f.args[0].endswith("register_plugin_function"):
            kw = dict(t.args[2])
            a = kw.get("args")
            args = a.args if isinstance(a, Op) and a.op in ("list", "tuple") else ((a,) if a is not None else ())
            k = kw.get("kwargs")
            if k is None or k == Const(None): kws = ()
            elif isinstance(k, Op) and k.op == "dict": kws = tuple(k.args)
            else: kws = None
            out.append(Native(kw.get("function_name"), tuple(args), kws, tuple((n, kw.get(n, Const(False))) for n in _FLAGS), t, s))
    return out
