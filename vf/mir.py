"""Acquires and parses the MIR of the crate in /repo (produced by the repository's own toolchain).

`load()` returns a Program: every function, closure, const and static body of the library as a control-flow
graph with typed locals and resolved callees.  Nothing here executes code of the crate."""
from __future__ import annotations
import hashlib, os, pickle, re, shutil, subprocess, sys, tempfile, time
from dataclasses import dataclass, field
from functools import lru_cache

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".cache")
PARSER_VERSION = "9"

# ------------------------------------------------------------------ acquisition

def rust_sources(root=None):
    out = []
    root = root or REPO
    for d, _, fs in os.walk(os.path.join(root, "src")):
        for f in fs:
            if f.endswith(".rs"):
                out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock", "rust-toolchain.toml", "rust-toolchain", "build.rs"):
        p = os.path.join(root, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)

def tree_hash(files, extra="", root=None):
    h = hashlib.sha256(extra.encode())
    for p in files:
        h.update(os.path.relpath(p, root or REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()

class BuildError(Exception):
    pass

def _cargo_mir(outfile, root=None):
    nonce = hashlib.sha256(("%s %s" % (time.time_ns(), os.getpid())).encode()).hexdigest()[:16]
    script = r'''
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$1" || exit 97
[ -n "$4" ] && export CARGO_TARGET_DIR="$4"
exec cargo rustc --locked --offline --lib -- -Zunpretty=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no --cfg "vf_nonce=\"$3\"" > "$2"
'''
    # first the build's own target directory (dependencies already compiled there); if that fails for a reason that
    # is not a compile error of the crate, a scratch one
    err = ""
    with tempfile.TemporaryDirectory(prefix="vf-target-") as scratch:
        for tgt in (os.environ.get("VF_TARGET", ""), scratch):
            r = subprocess.run(["bash", "-c", script, "bash", root or REPO, outfile, nonce, tgt],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if r.returncode == 0 and os.path.getsize(outfile) > 100000:
                return
            err = r.stderr
            if re.search(r"^error(\[E\d+\])?:.*\n\s*--> src/", err, re.M):
                break
    raise BuildError("the crate in %s does not compile:\n%s" % (root or REPO, "".join(re.findall(r"^error.*?(?=^warning|^error|\Z)", err, re.M | re.S))[:3000] or err[-3000:]))

REFSRC = os.path.join(HERE, "spec", "ref", "native")

def load_reference() -> "Program":
    """the reference routines of spec/ref/native, compiled with the repository's manifest and toolchain"""
    with tempfile.TemporaryDirectory(prefix="vf-ref-") as d:
        shutil.copytree(REFSRC, os.path.join(d, "src"))
        for f in ("Cargo.toml", "Cargo.lock", "rust-toolchain.toml", "rust-toolchain", "build.rs", "README.md", "pyproject.toml", "LICENSE.txt", "LICENSE"):
            p = os.path.join(REPO, f)
            if os.path.exists(p): shutil.copy(p, os.path.join(d, f))
        p = load(root=d)
    p.root = REFSRC
    return p

def load(verbose=False, root=None) -> "Program":
    key = tree_hash(rust_sources(root), PARSER_VERSION, root)
    os.makedirs(CACHE, exist_ok=True)
    pk = os.path.join(CACHE, "mir-%s.pickle" % key[:24])
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    fd, tmp = tempfile.mkstemp(prefix="vf-mir-", suffix=".mir")
    os.close(fd)
    try:
        _cargo_mir(tmp, root)
        with open(tmp) as f:
            text = f.read()
    finally:
        os.unlink(tmp)
    prog = parse(text)
    try:
        for old in os.listdir(CACHE):
            if old.startswith("mir-") and old.endswith(".pickle"):
                p = os.path.join(CACHE, old)
                if time.time() - os.path.getmtime(p) > 3600:
                    os.unlink(p)
        t = pk + ".%d.tmp" % os.getpid()
        with open(t, "wb") as f:
            pickle.dump(prog, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.replace(t, pk)
    except OSError:
        pass
    return prog

# ------------------------------------------------------------------ data model

@dataclass(frozen=True)
class Place:
    local: int
    proj: tuple = ()      # ('deref',) ('f', n) ('as', variant) ('idx', local) ('cidx', n, fromend) ('sub',)
    def base(self): return self.local
    def __str__(self):
        s = "_%d" % self.local
        for p in self.proj:
            s = {"deref": lambda: "(*%s)" % s, "f": lambda: "%s.%s" % (s, p[1]), "as": lambda: "(%s as %s)" % (s, p[1]),
                 "idx": lambda: "%s[_%s]" % (s, p[1]), "cidx": lambda: "%s[%s%s]" % (s, "-" if p[2] else "", p[1]),
                 "sub": lambda: "%s[..]" % s}[p[0]]()
        return s

@dataclass(frozen=True)
class Const:
    text: str             # as printed, without the leading `const `
    ty: str = ""
    def __str__(self): return "const " + self.text
    @property
    def int(self):
        m = re.match(r"^(-?\d+)_(?:[iu](?:8|16|32|64|128|size))$", self.text)
        return int(m.group(1)) if m else None
    @property
    def bool(self):
        return {"true": True, "false": False}.get(self.text)
    @property
    def str(self):
        if self.text.startswith('"') and self.text.endswith('"'):
            return _unescape(self.text[1:-1])
        return None
    @property
    def float(self):
        m = re.match(r"^(-?[\d.]+(?:[eE][-+]?\d+)?)(f32|f64)$", self.text)
        return float(m.group(1)) if m else None

@dataclass(frozen=True)
class FnRef:
    text: str             # path of a function item used as a value

def _unescape(s):
    return (s.replace("\\\\", "\0").replace('\\"', '"').replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r")
            .replace("\\'", "'").replace("\0", "\\"))

@dataclass
class Rv:
    kind: str             # use ref addr bin un cast agg disc len ptrmeta repeat nullop box other
    ops: tuple = ()       # operands (Place | Const)
    data: object = None   # bin: op name; cast: (ty, kind); agg: descriptor; ref: 'mut'/'shared'; other: text

@dataclass
class Assign:
    place: Place
    rv: Rv
    text: str

@dataclass
class Term:
    kind: str             # goto switch call drop assert return unreachable resume other
    targets: tuple = ()   # successor blocks, normal control flow only
    op: object = None     # switch/assert operand
    values: tuple = ()    # switch values (aligned with targets, last one otherwise -> None)
    dest: Place = None
    callee: str = None    # textual callee path (None when calling through an operand)
    fop: object = None    # callee operand when indirect
    args: tuple = ()
    unwind: int = None
    text: str = ""

@dataclass
class Block:
    id: int
    stmts: list
    term: Term
    cleanup: bool

@dataclass
class Fn:
    name: str             # header path
    kind: str             # fn const static
    args: list            # [(local, type)]
    ret: str
    locals: dict          # local -> type
    debug: dict           # name -> list of place text
    blocks: dict
    canon: str = ""       # canonical name (impl spans resolved to types)
    file: str = ""
    line: int = 0
    closure_span: str = None
    def calls(self, cleanup=False):
        for b in self.blocks.values():
            if b.term.kind == "call" and (cleanup or not b.cleanup):
                yield b, b.term
    def rets(self):
        return [b for b in self.blocks.values() if b.term.kind == "return"]
    def preds(self):
        p = {b: [] for b in self.blocks}
        for b in self.blocks.values():
            for t in b.term.targets:
                p[t].append(b.id)
        return p
    def __repr__(self): return "<Fn %s>" % self.canon

# ------------------------------------------------------------------ low level splitting

_OPEN = {"(": ")", "[": "]", "{": "}", "<": ">"}
def split_top(s, sep=","):
    """split s on sep at nesting depth 0 (aware of strings, chars, -> and =>)"""
    out, depth, i, start, n = [], 0, 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"' :
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(s, i)
            if m:
                i = m.end() - 1
        elif c in "([{<":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == ">":
            if i > 0 and s[i-1] in "-=":
                pass
            else:
                depth -= 1
        elif depth == 0 and s.startswith(sep, i):
            out.append(s[start:i].strip()); i += len(sep); start = i
            continue
        i += 1
    last = s[start:].strip()
    if last or out:
        out.append(last)
    return [x for x in out if x != ""]

def match_close(s, i):
    """index of the bracket closing the one at s[i]"""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(s, i)
            if m:
                i = m.end() - 1
        elif c in "([{<":
            depth += 1
        elif c in ")]}" or (c == ">" and not (i > 0 and s[i-1] in "-=")):
            depth -= 1
            if depth == 0:
                return i
        i += 1
    return -1

def strip_generics(path):
    """drop every balanced <...> that is a generic argument list (keeps <T as Trait> and <impl ..> heads)"""
    out, i, n = [], 0, len(path)
    while i < n:
        c = path[i]
        if c == "<":
            j = match_close(path, i)
            if j < 0:
                out.append(path[i:]); break
            inner = path[i+1:j]
            prev = "".join(out)
            is_head = (prev == "" or prev.endswith("::")) and (inner.startswith("impl ") or " as " in inner or prev == "")
            if is_head and not (prev.endswith("::") and not inner.startswith("impl ")):
                out.append("<" + inner + ">")
            else:
                if prev.endswith("::"):
                    out = [prev[:-2]]
            i = j + 1
        else:
            out.append(c); i += 1
    return "".join(out)

# ------------------------------------------------------------------ place / operand / rvalue parsing

class _P:
    __slots__ = ("s", "i")
    def __init__(self, s, i=0): self.s, self.i = s, i
    def peek(self, k=1): return self.s[self.i:self.i+k]

_num = re.compile(r"\d+")
def parse_place(p: _P) -> Place:
    s = p.s
    if s[p.i] == "_":
        m = _num.match(s, p.i + 1)
        pl = Place(int(m.group())); p.i = m.end()
    elif s[p.i] == "(":
        p.i += 1
        if s[p.i] == "*":
            p.i += 1
            inner = parse_place(p)
            assert s[p.i] == ")", s
            p.i += 1
            pl = Place(inner.local, inner.proj + (("deref",),))
        else:
            inner = parse_place(p)
            if s.startswith(" as ", p.i):
                j = _close_paren(s, p.i)
                var = s[p.i+4:j].strip()
                p.i = j + 1
                pl = Place(inner.local, inner.proj + (("as", var),))
            elif s[p.i] == ":" :
                # (place: type) with trailing field already parsed
                j = _close_paren(s, p.i)
                p.i = j + 1
                pl = inner
            else:
                raise ValueError("place " + s[p.i-20:p.i+60])
    else:
        raise ValueError("place? " + s[p.i:p.i+80])
    while p.i < len(s):
        c = s[p.i]
        if c == "." and _num.match(s, p.i + 1):
            m = _num.match(s, p.i + 1)
            p.i = m.end()
            pl = Place(pl.local, pl.proj + (("f", int(m.group())),))
        elif c == "[":
            j = match_close(s, p.i)
            inner = s[p.i+1:j]
            p.i = j + 1
            m = re.match(r"^_(\d+)$", inner)
            if m:
                pl = Place(pl.local, pl.proj + (("idx", int(m.group(1))),))
            else:
                m = re.match(r"^(-?)(\d+) of (\d+)$", inner)
                if m:
                    pl = Place(pl.local, pl.proj + (("cidx", int(m.group(2)), bool(m.group(1))),))
                else:
                    pl = Place(pl.local, pl.proj + (("sub",),))
        else:
            break
    return pl

def _close_paren(s, i):
    """closing ) of the group we are inside at position i"""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in "([{<":
            depth += 1
        elif c in ")]}" or (c == ">" and not (i > 0 and s[i-1] in "-=")):
            if depth == 0:
                return i
            depth -= 1
        i += 1
    return -1

def parse_operand(t: str):
    t = t.strip()
    if t.startswith("copy ") or t.startswith("move "):
        p = _P(t, 5)
        return parse_place(p)
    if t.startswith("const "):
        return Const(t[6:].strip())
    if t.startswith("_") or t.startswith("("):
        try:
            p = _P(t)
            pl = parse_place(p)
            if p.i == len(t):
                return pl
        except Exception:
            pass
    return Const(t)

_BIN = {"Add","Sub","Mul","Div","Rem","BitXor","BitAnd","BitOr","Shl","Shr","Eq","Lt","Le","Ne","Ge","Gt","Cmp","Offset",
        "AddWithOverflow","SubWithOverflow","MulWithOverflow","AddUnchecked","SubUnchecked","MulUnchecked","ShlUnchecked","ShrUnchecked"}
_UN = {"Not","Neg","PtrMetadata"}
_NULL = {"SizeOf","AlignOf","OffsetOf","UbChecks"}

_fnhead = re.compile(r"^([A-Za-z]+)\(")
def parse_rvalue(t: str) -> Rv:
    t = t.strip()
    if t.startswith(("copy ", "move ", "const ")):
        # maybe a cast:  `move _1 as T (Kind)`
        k = _find_as(t)
        if k is not None:
            op = parse_operand(t[:k])
            rest = t[k+4:]
            m = re.match(r"^(.*) \(([^()]*(?:\([^()]*(?:\([^()]*\))?[^()]*\))?[^()]*)\)$", rest)
            ty, kind = (m.group(1), m.group(2)) if m else (rest, "")
            return Rv("cast", (op,), (ty, kind))
        return Rv("use", (parse_operand(t),))
    if t.startswith("&raw "):
        k = t.split(" ", 2)
        p = _P(t, len(k[0]) + len(k[1]) + 2)
        return Rv("addr", (parse_place(p),), k[1])
    if t.startswith("&"):
        body = t[1:]
        mut = "shared"
        for pre, m in (("mut ", "mut"), ("fake shallow ", "shared"), ("fake ", "shared"), ("two_phase ", "mut")):
            if body.startswith(pre):
                body, mut = body[len(pre):], m
                break
        p = _P(body)
        return Rv("ref", (parse_place(p),), mut)
    m = _fnhead.match(t)
    if m:
        h = m.group(1)
        if h in _BIN and t.endswith(")"):
            a = split_top(t[len(h)+1:-1])
            return Rv("bin", tuple(parse_operand(x) for x in a), h)
        if h in _UN and t.endswith(")"):
            op = parse_operand(t[len(h)+1:-1])
            return Rv("ptrmeta" if h == "PtrMetadata" else "un", (op,), h)
        if h in _NULL:
            return Rv("nullop", (), h)
        if h == "Len":
            return Rv("len", (parse_place(_P(t[4:-1])),))
        if h == "discriminant":
            pass
    if t.startswith("discriminant("):
        return Rv("disc", (parse_place(_P(t[13:-1])),))
    if t.startswith("ShallowInitBox("):
        return Rv("box", tuple(parse_operand(x) for x in split_top(t[15:-1])))
    if t.startswith("deref_copy "):
        return Rv("use", (parse_place(_P(t, 11)),))
    if t.startswith("["):
        inner = t[1:-1]
        parts = split_top(inner, ";")
        if len(parts) == 2:
            return Rv("repeat", (parse_operand(parts[0]),), parts[1])
        return Rv("agg", tuple(parse_operand(x) for x in split_top(inner)), ("array",))
    if t.startswith("("):
        return Rv("agg", tuple(parse_operand(x) for x in split_top(t[1:-1])), ("tuple",))
    if t.startswith("{closure@") or t.startswith("{coroutine"):
        j = match_close(t, 0)
        span = t[len("{closure@"):j]
        rest = t[j+1:].strip()
        ops, names = (), ()
        if rest.startswith("{"):
            fs = split_top(rest[1:-1])
            pairs = [f.split(": ", 1) for f in fs]
            names = tuple(a.strip() for a, _ in pairs)
            ops = tuple(parse_operand(b) for _, b in pairs)
        return Rv("agg", ops, ("closure", span, names))
    if t.endswith("))") and "(PointerCoercion(" in t:
        k = _find_as(t)
        if k is not None:
            m = re.match(r"^(.*) \((PointerCoercion\(.*\))\)$", t[k+4:])
            if m: return Rv("cast", (Const(t[:k].strip()),), (m.group(1), m.group(2)))
    # struct / enum aggregates:  Path { a: op, .. } | Path(op, ..) | Path
    if t.endswith("}"):
        i = _brace_start(t)
        if i > 0:
            fs = split_top(t[i+1:-1])
            pairs = [f.split(": ", 1) for f in fs]
            return Rv("agg", tuple(parse_operand(b) for a, b in pairs), ("struct", t[:i].strip(), tuple(a for a, b in pairs)))
    if t.endswith(")"):
        i = _paren_start(t)
        if i > 0:
            return Rv("agg", tuple(parse_operand(x) for x in split_top(t[i+1:-1])), ("variant", t[:i].strip()))
    if re.match(r"^[\w:<>, '&\[\]{}@/.;()=*+-]+$", t):
        return Rv("agg", (), ("variant", t))
    return Rv("other", (), t)

def _brace_start(t):
    # position of the `{` matching the final `}`
    depth = 0
    st = []
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if c == '"':
            i += 1
            while i < n and t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        elif c in "({[":
            st.append(i)
        elif c in ")}]":
            j = st.pop() if st else -1
            if i == n - 1:
                return j
        i += 1
    return -1
_paren_start = _brace_start

def _find_as(t):
    depth, i, n = 0, 0, len(t)
    while i < n:
        c = t[i]
        if c == '"':
            i += 1
            while i < n and t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        elif c in "([{<":
            depth += 1
        elif c in ")]}" or (c == ">" and not (i > 0 and t[i-1] in "-=")):
            depth -= 1
        elif depth == 0 and t.startswith(" as ", i):
            return i
        i += 1
    return None

# ------------------------------------------------------------------ body parsing

_bb = re.compile(r"^    (bb\d+)( \(cleanup\))?: \{$")
_local = re.compile(r"^\s+let (?:mut )?_(\d+): (.*);$")
_debug = re.compile(r"^\s+debug (.+?) => (.*);$")
_hdr = re.compile(r"^(fn|const|static|static mut) (.*) \{$")

def _targets(txt):
    """`-> [return: bb1, unwind: bb9]` | `-> bb1` | `-> unwind continue`"""
    ret, unw, others = None, None, []
    m = re.search(r"-> (\[.*\]|bb\d+|unwind .*)$", txt)
    if not m:
        return ret, unw, others
    x = m.group(1)
    if x.startswith("bb"):
        return int(x[2:]), None, []
    if x.startswith("["):
        for part in split_top(x[1:-1]):
            if part.startswith("unwind"):
                mm = re.search(r"bb(\d+)", part)
                unw = int(mm.group(1)) if mm else None
            else:
                k, v = part.rsplit(": ", 1)
                mm = re.match(r"bb(\d+)$", v)
                if mm:
                    if k in ("return", "success"):
                        ret = int(mm.group(1))
                    others.append((k, int(mm.group(1))))
    else:
        mm = re.search(r"bb(\d+)", x)
        unw = int(mm.group(1)) if mm else None
    return ret, unw, others

def parse_term(t: str) -> Term:
    if t.startswith("goto -> "):
        return Term("goto", (int(t[10:]),), text=t)
    if t == "return":
        return Term("return", text=t)
    if t == "unreachable":
        return Term("unreachable", text=t)
    if t.startswith("resume") or t.startswith("terminate"):
        return Term("resume", text=t)
    if t.startswith("switchInt("):
        j = match_close(t, len("switchInt"))
        op = parse_operand(t[len("switchInt("):j])
        _, _, oth = _targets(t[j:])
        vals = tuple(None if k == "otherwise" else _switchval(k) for k, _ in oth)
        return Term("switch", tuple(b for _, b in oth), op=op, values=vals, text=t)
    if t.startswith("drop("):
        j = match_close(t, 4)
        ret, unw, _ = _targets(t[j:])
        return Term("drop", (ret,) if ret is not None else (), dest=parse_place(_P(t[5:j])), unwind=unw, text=t)
    if t.startswith("assert("):
        j = match_close(t, 6)
        ret, unw, _ = _targets(t[j:])
        parts = split_top(t[7:j])
        c = parts[0]
        neg = c.startswith("!")
        return Term("assert", (ret,) if ret is not None else (), op=parse_operand(c.lstrip("!")), values=(not neg,), unwind=unw,
                    args=tuple(parts[1:]), text=t)
    if t.startswith("falseEdge") or t.startswith("falseUnwind"):
        _, _, oth = _targets(t)
        return Term("goto", tuple(b for k, b in oth if k in ("real", "return")), text=t)
    # call:  _d = callee(args) -> [...]
    m = re.match(r"^(.*?) = (.*)$", t)
    if m and (m.group(1).startswith("_") or m.group(1).startswith("(")):
        k = _arrow(t)
        ret, unw, _ = _targets(t[k:]) if k is not None else (None, None, [])
        p = _P(t)
        dest = parse_place(p)
        body = t[p.i+3:k].strip() if k is not None else t[p.i+3:].strip()
        i = _paren_start(body)
        callee = body[:i].strip()
        args = tuple(parse_operand(x) for x in split_top(body[i+1:-1]))
        fop = None
        if callee.startswith(("move ", "copy ")):
            fop = parse_operand(callee); callee = None
        return Term("call", (ret,) if ret is not None else (), dest=dest, callee=callee, fop=fop, args=args, unwind=unw, text=t)
    return Term("other", text=t)

def _switchval(k):
    try:
        return int(k)
    except ValueError:
        return k

def _arrow(t):
    depth, i, n = 0, 0, len(t)
    last = None
    while i < n:
        c = t[i]
        if c == '"':
            i += 1
            while i < n and t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        elif c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(t, i)
            if m:
                i = m.end() - 1
        elif c in "([{<":
            depth += 1
        elif c in ")]}" or (c == ">" and not (i > 0 and t[i-1] in "-=")):
            depth -= 1
        elif depth == 0 and t.startswith(" -> ", i):
            last = i + 1
        i += 1
    return last

_TERM_START = ("goto ->", "return", "unreachable", "resume", "terminate", "switchInt(", "drop(", "assert(", "falseEdge", "falseUnwind")

def parse_stmt(t: str):
    if t.startswith(("StorageLive", "StorageDead", "nop", "FakeRead", "PlaceMention", "Retag", "AscribeUserType", "Coverage", "ConstEvalCounter", "Deinit", "BackwardIncompatible")):
        return None
    if t.startswith("discriminant("):
        # set discriminant
        j = match_close(t, 12)
        return Assign(parse_place(_P(t[13:j])), Rv("other", (), "setdisc " + t[j+4:]), t)
    if t.startswith("assume("):
        return None
    p = _P(t)
    pl = parse_place(p)
    assert t.startswith(" = ", p.i), t
    return Assign(pl, parse_rvalue(t[p.i+3:]), t)

class Program:
    def __init__(self):
        self.fns = {}           # header name -> Fn
        self.by_closure = {}    # closure span -> Fn
        self.consts = {}        # name -> Fn (const/static bodies)
        self.allocs = {}        # id -> text
        self.unparsed = []
        self.index = {}
    # -------- resolution
    def finalize(self):
        self.index = {}
        for f in self.fns.values():
            f.canon = canon_header(f.name)
            self.index.setdefault(f.canon, []).append(f)
            if f.args and "{closure#" in f.name.rsplit("::", 1)[-1]:
                m = re.search(r"\{closure@([^}]*)\}", f.args[0][1])
                if m:
                    f.closure_span = m.group(1)
                    self.by_closure[m.group(1)] = f
            m = re.search(r"\{closure@([^:]+):(\d+)", f.args[0][1]) if (f.args and f.closure_span) else None
            if m:
                f.file, f.line = m.group(1), int(m.group(2))
        self._captures()
        self.methods = {}
        for f in self.fns.values():
            c = f.canon
            self.methods.setdefault(c.rsplit("::", 1)[-1] if "{closure" not in c else None, []).append(f)

    def _captures(self):
        """The printed form of a closure value lists one operand per captured variable; a variable captured at several places
        (`kw.a`, `kw.b`) has more, which the printer drops.  They are the temporaries that follow the last one printed."""
        for f in self.fns.values():
            if re.search(r"_polars_plugin_\w+(::\{closure#\d+\})*$", f.name): continue
            for b in f.blocks.values():
                for s in b.stmts:
                    rv = getattr(s, "rv", None)
                    if rv is None or rv.kind != "agg" or not rv.data or rv.data[0] != "closure" or not rv.ops: continue
                    c = self.by_closure.get(rv.data[1])
                    last = rv.ops[-1]
                    if c is None or not isinstance(last, Place) or last.proj: continue
                    used = [int(m.group(1)) for bb in c.blocks.values() for st in bb.stmts
                            for m in re.finditer(r"\(\(?\*?_1\)?\.(\d+):", getattr(st, "text", "") or "")]
                    need = max(used, default=-1) + 1 - len(rv.ops)
                    assigned = {x.place.local for bb in f.blocks.values() for x in bb.stmts if isinstance(x, Assign)}
                    more = [last.local + i for i in range(1, need + 1)]
                    if need > 0 and all(l in assigned for l in more):
                        rv.ops = tuple(rv.ops) + tuple(Place(l) for l in more)

    def resolve(self, callee: str):
        """local functions a textual callee may denote ([] for foreign code)"""
        if callee is None:
            return []
        c = getattr(self, "_rcache", None)
        if c is None:
            c = self._rcache = {}
        if callee in c:
            return c[callee]
        c[callee] = r = self._resolve(callee)
        return r
    def __getstate__(self):
        d = dict(self.__dict__)
        d.pop("_rcache", None)
        return d
    def _resolve(self, callee):
        key = canon_callee(callee)
        if key in self.index:
            return self.index[key]
        m = re.match(r"^<(.*) as ([^>]*?)>::([\w#]+)$", key)
        if m:
            ty, tr, me = m.groups()
            tr_last = tr.split("::")[-1]
            cands = [f for f in self.methods.get(me, []) if f.canon.startswith("<") and (" as " in f.canon) and
                     f.canon.split(" as ", 1)[1].split(">")[0].split("::")[-1] == tr_last]
            ty_last = type_head(ty)
            exact = [f for f in cands if type_head(f.canon[1:].split(" as ")[0]) == ty_last]
            if exact:
                return exact
            default = [f for f in self.methods.get(me, []) if f.canon.split("::")[-2:-1] == [tr_last] and not f.canon.startswith("<")]
            if me == "into" and tr_last == "Into":
                mm = re.search(r" as (?:std|core)::convert::Into<(.*)>>::into$", callee)
                tgt = type_head(mm.group(1)) if mm else None
                src = type_head(ty)
                fr = [f for f in self.methods.get("from", []) if f.canon.startswith("<%s as From" % tgt)]
                return fr
            foreign = tr_last in _STD_TRAITS
            if not foreign and (cands or default):
                return cands + default        # a local trait on a type parameter (or a type known by another name)
            if re.match(r"^[A-Z]\w?$", ty_last) or ty_last in ("Self", "dyn"):
                return cands + default
            return default if default and self._is_local_type(ty_last) else []
        # inherent:  Type::method with Type local
        parts = key.split("::")
        if len(parts) >= 2:
            ty, me = parts[-2], parts[-1]
            r = [f for f in self.methods.get(me, []) if f.canon.split("::")[-2:] == [ty, me] and not f.canon.startswith("<")]
            # only accept when the crate path agrees (first segment local)
            r = [f for f in r if f.canon.split("::")[0] == parts[0] or len(parts) == 2]
            return r
        return []
    def _is_local_type(self, head):
        return any(("::" + head + "::") in ("::" + f.canon + "::") or ("<" + head + " as") in f.canon for f in self.fns.values())

    def closure_of(self, span):
        return self.by_closure.get(span)

_STD_TRAITS = {"From", "Into", "TryFrom", "Default", "Clone", "Drop", "Deref", "DerefMut", "AsRef", "AsMut", "Iterator", "IntoIterator", "PartialEq",
               "Eq", "PartialOrd", "Ord", "Hash", "Debug", "Display", "Fn", "FnMut", "FnOnce", "Index", "IndexMut", "Add", "Sub", "Mul", "Div",
               "Neg", "Sum", "FromStr", "Deserialize", "Visitor", "Borrow", "ToString", "Error", "Extend", "FromIterator", "AddAssign", "MulAssign",
               "SubAssign", "Try", "FromResidual", "PyClassImpl", "IntoPyObject", "FromPyObject", "Send", "Sync", "DoubleEndedIterator", "ExactSizeIterator"}

def type_head(ty):
    ty = ty.strip()
    ty = re.sub(r"^(&('\w+ )?(mut )?|\*const |\*mut |dyn )+", "", ty)
    ty = strip_generics(ty)
    return ty.split("::")[-1].split("<")[0].strip()

@lru_cache(maxsize=None)
def _impl_at(file, line):
    """`impl` header text at file:line -> (type head, trait head or None, module path)"""
    try:
        with open(os.path.join(REPO, file)) as f:
            src = f.read().split("\n")
    except OSError:
        return None
    txt = "\n".join(src[line-1:line+12])
    return parse_impl_header(txt)

def parse_impl_header(txt):
    m = re.match(r"\s*(?:unsafe\s+)?impl\b", txt)
    if not m:
        return None
    i = m.end()
    rest = txt[i:].lstrip()
    if rest.startswith("<"):
        j = match_close(rest, 0)
        rest = rest[j+1:].lstrip()
    # up to `{` or where at depth 0
    depth, k = 0, 0
    while k < len(rest):
        c = rest[k]
        if c in "<([":
            depth += 1
        elif c in ")]" or (c == ">" and rest[k-1] not in "-="):
            depth -= 1
        elif depth == 0 and (c == "{" or re.match(r"where\b", rest[k:])):
            break
        k += 1
    head = rest[:k].strip()
    d, pos = 0, None
    for k in range(len(head)):
        c = head[k]
        if c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and head[k-1] not in "-="):
            d -= 1
        elif d == 0 and head.startswith(" for ", k):
            pos = k
    if pos is None:
        return (type_head(head), None)
    return (type_head(head[pos+5:]), type_head(head[:pos]))

_implat = re.compile(r"<impl at ([^:>]+):(\d+):\d+: \d+:\d+>")
def canon_header(name):
    """header path -> canonical path: impl blocks by span become Type:: or <Type as Trait>::"""
    # plugin bodies live inside a generated closure; flatten
    name = re.sub(r"::_polars_plugin_(\w+)::\{closure#0\}::(\1)\b", r"::\2", name)
    m = list(_implat.finditer(name))
    if not m:
        return name
    last = m[-1]
    info = _impl_at(last.group(1), int(last.group(2)))
    mod = name[:last.start()].rstrip(":")
    tail = name[last.end():].lstrip(":")
    if info is None:
        # derive or macro: keep a stable, span-free spelling
        return _implat.sub("<impl>", name)
    ty, tr = info
    mod = _implat.sub("<impl>", mod)
    if tr is None:
        return (mod + "::" if mod else "") + ty + "::" + tail
    return "<%s as %s>::%s" % (ty, tr, tail)

def canon_callee(c):
    c = c.strip()
    if c.startswith("<"):
        j = match_close(c, 0)
        inner = c[1:j]
        rest = strip_generics(c[j+1:])
        k = None
        d = 0
        for i in range(len(inner)):
            ch = inner[i]
            if ch in "<([{":
                d += 1
            elif ch in ")]}" or (ch == ">" and inner[i-1] not in "-="):
                d -= 1
            elif d == 0 and inner.startswith(" as ", i):
                k = i
                break
        if k is not None:
            return "<%s as %s>%s" % (type_head(inner[:k]), strip_generics(inner[k+4:]).split("::")[-1], rest)
        return type_head(inner) + rest
    # mod::<impl Type>::method
    m = re.search(r"::<impl ", c)
    if m:
        j = match_close(c, m.start() + 2)
        inner = c[m.start()+8:j]
        rest = strip_generics(c[j+1:])
        if " for " in inner:
            tr, ty = inner.split(" for ", 1)
            return "<%s as %s>%s" % (type_head(ty), type_head(tr), rest)
        return strip_generics(c[:m.start()]) + "::" + type_head(inner) + rest
    c = re.sub(r"::_polars_plugin_(\w+)::\{closure#0\}::(\1)\b", r"::\2", c)
    return strip_generics(c)

def parse(text: str) -> Program:
    prog = Program()
    # statics by name: the numbers of allocations change from one compilation to the next
    st = dict(re.findall(r"^alloc(\d+) \(static: ([^,)]+)", text, re.M))
    text = re.sub(r"\{alloc(\d+): ", lambda m: "{static %s: " % st[m.group(1)] if m.group(1) in st else m.group(0), text)
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("alloc"):
            m = re.match(r"^alloc(\d+) \((.*)\) ?\{?(.*)$", l)
            body = [l]
            if l.rstrip().endswith("{"):
                i += 1
                while i < n and lines[i] != "}":
                    body.append(lines[i]); i += 1
            if m:
                prog.allocs[int(m.group(1))] = "\n".join(body)
            i += 1
            continue
        m = _hdr.match(l)
        if not m or l.startswith(" "):
            i += 1
            continue
        kind, hdr = m.group(1), m.group(2)
        j = i + 1
        while j < n and lines[j] != "}":
            j += 1
        try:
            f = _parse_body(kind, hdr, lines[i+1:j], prog)
            (prog.fns if kind == "fn" else prog.consts)[f.name] = f
        except Exception as e:       # fail closed: reported by every check through Program.unparsed
            prog.unparsed.append((hdr[:200], repr(e)[:300]))
        i = j + 1
    prog.finalize()
    return prog

def _parse_body(kind, hdr, body, prog):
    if kind == "fn":
        # name(args) -> ret
        k = _fn_paren(hdr)
        name = hdr[:k]
        j = match_close(hdr, k)
        args = []
        for a in split_top(hdr[k+1:j]):
            mm = re.match(r"^_(\d+): (.*)$", a, re.S)
            args.append((int(mm.group(1)), mm.group(2)))
        ret = hdr[j+1:].strip()
        ret = ret[2:].strip() if ret.startswith("->") else "()"
    else:
        mm = re.match(r"^(.*?): (.*) =$", hdr)
        # the name may contain `: ` inside impl spans
        k = _top_colon(hdr)
        name, ret = hdr[:k], hdr[k+2:].rstrip(" =")
        args = []
    locs = {a: t for a, t in args}
    locs[0] = ret
    dbg = {}
    blocks = {}
    cur = None
    for l in body:
        if cur is None:
            m = _bb.match(l)
            if m:
                cur = [int(m.group(1)[2:]), [], bool(m.group(2))]
                continue
            m = _local.match(l)
            if m:
                locs[int(m.group(1))] = m.group(2)
                continue
            m = _debug.match(l)
            if m:
                dbg.setdefault(m.group(1), []).append(m.group(2))
            continue
        if l == "    }":
            raw = cur[1]
            stmts = []
            for t in raw[:-1]:
                s = parse_stmt(t)
                if s is not None:
                    stmts.append(s)
            term = parse_term(raw[-1]) if raw else Term("unreachable")
            blocks[cur[0]] = Block(cur[0], stmts, term, cur[2])
            cur = None
            continue
        t = l.strip()
        if t.endswith(";"):
            t = t[:-1]
        if t:
            cur[1].append(t)
    return Fn(name, kind, args, ret, locs, dbg, blocks)

def _top_colon(h):
    d, i = 0, 0
    while i < len(h):
        c = h[i]
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and h[i-1] not in "-="):
            d -= 1
        elif d == 0 and h.startswith(": ", i):
            return i
        i += 1
    return -1

def _fn_paren(h):
    d, i = 0, 0
    while i < len(h):
        c = h[i]
        if c in "<[{":
            d += 1
        elif c in "]}" or (c == ">" and h[i-1] not in "-="):
            d -= 1
        elif c == "(":
            if d == 0:
                return i
            d += 1
        elif c == ")":
            d -= 1
        i += 1
    return -1

if __name__ == "__main__":
    t = time.time()
    p = load()
    print(len(p.fns), "fns", len(p.consts), "consts", len(p.unparsed), "unparsed", "%.1fs" % (time.time() - t))
    for u in p.unparsed[:20]:
        print(u)
