"""Value terms over MIR: where does a value come from.

`View(prog, fn).term(operand)` gives a term for the value an operand holds, following moves, borrows, casts, Result/Option
plumbing and closure captures back to arguments, constants and calls.  Terms are nested tuples:
  ('arg', fn canon, n)  ('const', text)  ('call', callee, (args..))  ('field', t, n)  ('variant', t, name)  ('index', t, i)
  ('agg', descriptor, (ops..))  ('closure', span, (captures..))  ('bin', op, a, b)  ('un', op, a)  ('cast', ty, a)
  ('len', a)  ('disc', a)  ('phi', (alternatives..))  ('rec', local)  ('fn', path)  ('opaque', text)"""
from __future__ import annotations
import re
from . import mir
from .mir import Place, Const, Assign, Rv, Term

# calls that hand their first argument's value on (for provenance)
_TRANSPARENT_LAST = {"deref", "deref_mut", "branch", "unwrap", "expect", "as_ref", "as_mut", "borrow", "borrow_mut", "clone", "cloned", "copied",
                     "into_iter", "as_slice", "as_mut_slice", "to_owned", "unwrap_unchecked", "map_err", "as_str", "to_vec", "into_owned", "by_ref",
                     "from_output", "ok", "as_deref", "as_deref_mut", "ok_or", "ok_or_else", "into_boxed_slice", "into_inner"}
_TRANSP_RE = re.compile(r"(^|::|>::)(%s)$" % "|".join(sorted(_TRANSPARENT_LAST)))

def last(callee):
    """last path segment of a callee, generics removed"""
    c = callee.rstrip()
    while c.endswith(">"):
        d, i = 0, len(c) - 1
        while i >= 0:
            if c[i] == ">" and not (i > 0 and c[i-1] in "-="): d += 1
            elif c[i] == "<":
                d -= 1
                if d == 0: break
            i -= 1
        c = c[:i].rstrip(":")
    return c.rsplit("::", 1)[-1]

_last_cache = {}
def last_of(callee):
    r = _last_cache.get(callee)
    if r is None: r = _last_cache[callee] = last(callee) if callee else ""
    return r

class World:
    """program plus closure creation sites"""
    def __init__(self, prog):
        self.prog = prog
        self.views = {}
        self.created = {}          # closure span -> (fn, Assign)
        for f in prog.fns.values():
            for b in f.blocks.values():
                for s in b.stmts:
                    if s.rv.kind == "agg" and s.rv.data and s.rv.data[0] == "closure":
                        self.created.setdefault(s.rv.data[1], (f, s))
                    # capture-less closures print as `const {closure}`-less aggregates; also as constants
                for o in (b.term.args if b.term.kind == "call" else ()):
                    pass
        self._children = None
    def view(self, f):
        v = self.views.get(f.name)
        if v is None: v = self.views[f.name] = View(self, f)
        return v
    def closure_fn(self, span): return self.prog.by_closure.get(span)
    def children(self, f):
        """closures created (textually) inside f"""
        if self._children is None:
            self._children = {}
            for span, (p, _) in self.created.items():
                c = self.prog.by_closure.get(span)
                if c is not None: self._children.setdefault(p.name, []).append(c)
        return self._children.get(f.name, [])
    def family(self, f):
        """f and every closure nested in it"""
        out, st = [], [f]
        while st:
            x = st.pop()
            out.append(x)
            st += self.children(x)
        return out
    def callees(self, f):
        """local functions f mentions: calls and function items used as values"""
        out = []
        for b in f.blocks.values():
            for s in b.stmts:
                for o in s.rv.ops:
                    if isinstance(o, Const):
                        out += self.fnref(o)
            if b.term.kind == "call":
                out += self.prog.resolve(b.term.callee)
                for o in b.term.args:
                    if isinstance(o, Const): out += self.fnref(o)
                if b.term.callee: out += self.generic_fns(b.term.callee)
        return out
    def generic_fns(self, callee):
        # fn items as generic arguments: `map::<.., fn(..) -> .. {path}>`
        return [g for m in re.findall(r"\{([A-Za-z_][\w:<>, ]*)\}", callee) for g in self.prog.resolve(m)]
    def fnref(self, c):
        t = c.text
        if re.match(r"^[a-z_][\w]*::", t) or t.startswith("<"):
            return self.prog.resolve(t)
        return []
    def reach(self, f):
        """every local function reachable from f (closures included)"""
        seen, st = {}, [f]
        while st:
            x = st.pop()
            if x.name in seen: continue
            seen[x.name] = x
            st += self.children(x)
            st += self.callees(x)
        return list(seen.values())

class View:
    def __init__(self, world, fn):
        self.w, self.fn = world, fn
        self.defs = {}           # local -> [(bb, i or None, Assign|Term)]   whole-local definitions
        self.parts = {}          # local -> [(bb, i, Assign)]                 definitions of a projection
        self.muts = {}           # local -> [(bb, call Term, argno)]           &mut borrows handed to calls
        for b in fn.blocks.values():
            if b.cleanup: continue
            for i, s in enumerate(b.stmts):
                (self.defs if not s.place.proj else self.parts).setdefault(s.place.local, []).append((b.id, i, s))
            t = b.term
            if t.kind == "call" and t.dest is not None:
                (self.defs if not t.dest.proj else self.parts).setdefault(t.dest.local, []).append((b.id, None, t))
        self.argset = {a for a, _ in fn.args}
        self._memo = {}

    # ---------------- terms
    def term(self, op, depth=40):
        if isinstance(op, Const): return self.const_term(op)
        return self.place_term(op, depth, ())

    def const_term(self, c):
        t = c.text
        m = re.match(r"^\{closure@([^}]*)\}$", t)
        if m: return ("closure", m.group(1), ())
        if self.w.prog.resolve(t) if re.match(r"^(<|[a-z_]\w*::)", t) and not t.endswith(")") else False: return ("fn", t)
        return ("const", t)

    def place_term(self, p, depth, stack):
        base = self.local_term(p.local, depth, stack)
        return self.project(base, p.proj, depth, stack)

    def project(self, t, proj, depth, stack):
        for x in proj:
            k = x[0]
            if k == "deref": continue
            if k == "as":
                t = ("variant", t, x[1]) if x[1] not in ("Continue", "Ok", "Some") else t if t[0] != "agg" else t
            elif k == "f":
                t = self.field(t, x[1], depth, stack)
            elif k == "idx": t = ("index", t, self.local_term(x[1], depth - 1, stack))
            elif k == "cidx": t = ("index", t, ("const", ("-" if x[2] else "") + "%d_usize" % x[1]))
            elif k == "sub": t = ("slice", t)
        return t

    def field(self, t, n, depth, stack):
        if t[0] == "agg" and t[1][0] in ("tuple", "array") and n < len(t[2]): return t[2][n]
        if t[0] == "agg" and t[1][0] == "struct" and n < len(t[2]): return t[2][n]
        if t[0] == "agg" and t[1][0] == "variant" and n < len(t[2]): return t[2][n]
        if t[0] == "wrap": return t[1]           # Ok/Some/Continue payload
        if t[0] == "call" and n == 0 and _is_wrapping(t): return t
        if t[0] == "arg" :
            c = self.capture(t, n)
            if c is not None: return c
        if t[0] == "phi":
            return phi([self.field(x, n, depth, stack) for x in t[1]])
        if t[0] == "bin" and t[1].endswith("WithOverflow"):
            return ("bin", t[1][:-12], t[2], t[3]) if n == 0 else ("overflow",)
        return ("field", t, n)

    def capture(self, t, n):
        """field n of the closure environment -> the captured value, as a term of the creating function"""
        f = self.fn
        if f.closure_span is None or t[1] != f.canon or t[2] != 1: return None
        cr = self.w.created.get(f.closure_span)
        if cr is None: return None
        pf, s = cr
        if n >= len(s.rv.ops): return None
        return self.w.view(pf).term(s.rv.ops[n])

    def local_term(self, l, depth, stack):
        if l in self._memo: return self._memo[l]
        if l in stack: return ("rec", self.fn.canon, l)
        if depth <= 0: return ("opaque", "deep")
        ds = self.defs.get(l, [])
        if l in self.argset and not ds: return ("arg", self.fn.canon, l)
        if not ds:
            if l in self.parts:
                # built field by field (e.g. array/struct init through projections)
                return ("opaque", "parts:%s" % self.fn.locals.get(l, ""))
            return ("opaque", "undef:%s" % self.fn.locals.get(l, ""))
        st2 = stack + (l,)
        alts = []
        if l in self.argset: alts.append(("arg", self.fn.canon, l))
        for bb, i, d in ds:
            alts.append(self.rv_term(d.rv, depth - 1, st2) if isinstance(d, Assign) else self.call_term(d, depth - 1, st2))
        r = phi(alts)
        if not stack: self._memo[l] = r
        return r

    def op_term(self, o, depth, stack):
        if isinstance(o, Const): return self.const_term(o)
        return self.place_term(o, depth, stack)

    def rv_term(self, rv, depth, stack):
        k = rv.kind
        if k in ("use", "ref", "addr", "box"): return self.op_term(rv.ops[0], depth, stack)
        if k == "cast":
            a = self.op_term(rv.ops[0], depth, stack)
            if a[0] in ("closure", "fn"): return a
            kind = rv.data[1]
            if "Pointer" in kind or "Ptr" in kind or kind.startswith("Transmute"): return a
            return ("cast", rv.data[0], a)
        if k == "bin": return ("bin", rv.data) + tuple(self.op_term(o, depth, stack) for o in rv.ops)
        if k == "un": return ("un", rv.data, self.op_term(rv.ops[0], depth, stack))
        if k == "agg":
            ops = tuple(self.op_term(o, depth, stack) for o in rv.ops)
            d = rv.data
            if d[0] == "closure": return ("closure", d[1], ops)
            if d[0] == "variant":
                n = last_of(d[1])
                if n in ("Ok", "Some", "Continue") and len(ops) == 1: return ("wrap", ops[0], n)
                return ("agg", ("variant", d[1]), ops)
            return ("agg", d, ops)
        if k in ("len", "ptrmeta"): return ("len", self.op_term(rv.ops[0], depth, stack))
        if k == "disc": return ("disc", self.op_term(rv.ops[0], depth, stack))
        if k == "repeat": return ("repeat", self.op_term(rv.ops[0], depth, stack), rv.data)
        return ("opaque", k + ":" + str(rv.data)[:80])

    def call_term(self, t, depth, stack):
        args = tuple(self.op_term(a, depth, stack) for a in t.args)
        if t.callee is None:
            return ("call", "<indirect>", (self.op_term(t.fop, depth, stack),) + args)
        if args and _TRANSP_RE.search(mir.strip_generics(t.callee) if t.callee.endswith(">") else t.callee):
            a = args[0]
            if a[0] == "wrap": return a[1]
            return a
        return ("call", t.callee, args)

def _is_wrapping(t):
    return True

def phi(alts):
    out = []
    for a in alts:
        for x in (a[1] if a[0] == "phi" else (a,)):
            if x not in out: out.append(x)
    return out[0] if len(out) == 1 else ("phi", tuple(out))

def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen: continue
        seen.add(id(x))
        if x and isinstance(x[0], str) and x[0] in _KINDS: yield x
        for y in x[1:] if (x and isinstance(x[0], str)) else x:
            if isinstance(y, tuple): st.append(y)
_KINDS = {"arg", "const", "call", "field", "variant", "index", "agg", "closure", "bin", "un", "cast", "len", "disc", "phi", "rec", "fn", "opaque", "wrap", "repeat", "slice", "overflow"}

def show(t, d=6):
    if d == 0: return "…"
    k = t[0]
    if k == "arg": return "arg%s" % t[2]
    if k == "const": return t[1]
    if k == "call": return "%s(%s)" % (last_of(t[1]), ", ".join(show(a, d-1) for a in t[2]))
    if k == "field": return "%s.%s" % (show(t[1], d-1), t[2])
    if k == "index": return "%s[%s]" % (show(t[1], d-1), show(t[2], d-1))
    if k == "bin": return "(%s %s %s)" % (show(t[2], d-1), t[1], show(t[3], d-1))
    if k == "phi": return "phi(%s)" % " | ".join(show(a, d-1) for a in t[1])
    if k in ("agg", ): return "%s{%s}" % (t[1][1] if len(t[1]) > 1 else t[1][0], ", ".join(show(a, d-1) for a in t[2]))
    if k == "wrap": return "%s(%s)" % (t[2], show(t[1], d-1))
    if k in ("cast", "un"): return "%s:%s(%s)" % (k, t[1], show(t[2], d-1))
    if k == "closure": return "closure@%s" % t[1]
    return "%s(%s)" % (k, ", ".join(show(a, d-1) if isinstance(a, tuple) and a and a[0] in _KINDS else str(a) for a in t[1:]))
