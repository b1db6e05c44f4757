"""Driver:  python3 -m vf.check <ID> [<ID> ...]      decides the properties on the tree at /repo.

Each check module (vf/checks/cNN.py) has PROPERTY, RULE, TRUST and run(ctx, rep).  A finding is identified by a key that names
the construct (file, function, call, option), never a line number; known_findings.json lists the genuine defects that are
recorded rather than repaired.  Exit 0: held (apart from listed findings); exit 1: a VIOLATION line was printed."""
from __future__ import annotations
import importlib, json, os, signal, sys, time, traceback
from . import mir, native, pysym

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VF_EVIDENCE", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "known_findings.json")

class Ctx:
    """lazily built models of the tree, shared by the checks of one process"""
    def __init__(self):
        self._n = self._p = None
        self._paths = None
        self.memo = {}
    @property
    def prog(self): return self.native.prog
    @property
    def native(self):
        if self._n is None: self._n = native.Native()
        return self._n
    @property
    def w(self): return self.native.w
    @property
    def pkg(self):
        if self._p is None: self._p = pysym.Package()
        return self._p
    def cached(self, key, fn):
        if key not in self.memo: self.memo[key] = fn()
        return self.memo[key]

class OutOfTime(BaseException):
    """the time limit of one check; not an Exception, so that no handler inside an analysis takes it for a failed reading"""

LIMIT = int(os.environ.get("VF_LIMIT", "840"))

def _alarm(sig, frame): raise OutOfTime()

def _text(key):
    return key if isinstance(key, str) else " ".join(map(str, key)) if isinstance(key, tuple) else str(key)

class Report:
    def __init__(self, prop):
        self.prop = prop
        self.findings = {}       # key -> dict
        self.undecided = {}      # what -> why
        self.counts = {}
        self.samples = []
        self.ok = 0
        self.obl = 0
        self.notes = []
    def check(self, key, cond, what, **where):
        """one obligation: cond True holds, False violated, None undecided"""
        key = _text(key)
        self.obl += 1
        if cond is None: self.undecided[key] = what
        elif cond:
            self.ok += 1
            if len(self.samples) < 12 and self.obl % 7 == 1: self.samples.append(key)
        else: self.fail(key, what, **where)
        return cond
    def fail(self, key, what, **where):
        key = _text(key)
        if key not in self.findings: self.findings[key] = dict(key=key, what=what, **where)
    def undecide(self, key, why):
        self.obl += 1
        self.undecided[_text(key)] = why
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def floor(self, name, n):
        """the analysis saw what it is about: fewer than n means it went blind"""
        got = self.counts.get(name, 0)
        if got < n:
            self.fail("analysis-floor:" + name, "the analysis found only %d %s where at least %d are expected; it no longer sees the code the property is about" % (got, name, n))

def load_known():
    if not os.path.exists(KNOWN): return []
    with open(KNOWN) as f: return json.load(f)["findings"]

def run_one(pid, ctx):
    t0 = time.time()
    m = importlib.import_module("vf.checks." + pid.lower())
    rep = Report(pid)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    try:
        m.run(ctx, rep)
    except OutOfTime:
        rep.undecide("analysis stopped", "time limit of %d s; what was decided before it stands" % LIMIT)
        print("%s: UNDECIDED time limit" % pid, file=sys.stderr)
    except mir.BuildError as e:
        rep.fail("build", str(e))
    except SyntaxError as e:
        rep.fail("python-syntax", str(e))
    except Exception as e:
        # a construct the analysis cannot read is not a violation: say so, keep what was decided before it
        tb = traceback.format_exc()
        rep.undecide("analysis stopped", "%s: %s" % (type(e).__name__, str(e)[:300]))
        rep.notes.append(tb[-3000:])
        print("%s: UNDECIDED analysis stopped: %s" % (pid, tb.strip().splitlines()[-1][:300]), file=sys.stderr)
    signal.alarm(0)
    known = {k["key"]: k for k in load_known() if k["property"] == pid and k["status"] == "known"}
    viol = []
    for k, f in rep.findings.items():
        if k in known: print("KNOWN-FINDING: property=%s %s" % (pid, known[k].get("what") or f["what"]))
        else: viol.append(f)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": getattr(m, "LEVEL", "other"),
        "coverage": {
            "explanation": m.RULE,
            "obligations": rep.obl, "discharged": rep.ok, "undecided": len(rep.undecided),
            "known_findings": len(rep.findings) - len(viol),
            "analysed": rep.counts,
            "samples": rep.samples,
            "undecided_items": dict(list(rep.undecided.items())[:60]),
            "notes": rep.notes[:40],
        },
        "assumptions": list(m.TRUST),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    for i, f in enumerate(viol):
        rp = os.path.join(EVID, "replay", "%s-%d.json" % (pid, i))
        with open(rp, "w") as fh:
            json.dump({"property": pid, "finding": f, "rule": m.RULE, "reproduce": "cd /verif && python3 -m vf.check %s" % pid}, fh, indent=1, default=str)
        print("%s: %s" % (f["key"], f["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str, skipkeys=True)
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violations (%.1fs)" % (
        pid, rep.obl, rep.ok, len(rep.undecided), len(rep.findings) - len(viol), len(viol), time.time() - t0))
    return 1 if viol else 0

def main(argv):
    ids = [a for a in argv if not a.startswith("-")]
    if ids == ["all"]:
        ids = sorted(x[:-3].upper() for x in os.listdir(os.path.join(HERE, "vf", "checks")) if x.startswith("c") and x.endswith(".py"))
    ctx = Ctx()
    rc = 0
    sys.setrecursionlimit(20000)
    for i in ids:
        rc |= run_one(i, ctx)
    return rc

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
