"""Writes MANIFEST.json from properties.jsonl, the check modules present and the reasons below."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "The claim is about floating-point values computed from runtime matrices; no sound static argument in reach bounds the residual of a QR/SVD/Cholesky/coordinate-descent solve.",
 "N02": "Accuracy of series and continued fractions is a numerical statement over real inputs; static analysis of the source cannot bound the error.",
 "N03": "Exactness of the whole search depends on runtime point values and metric inequalities; the structural parts that can be decided statically are C21.",
 "N04": "Equality of rapidfuzz results with a mathematical definition for all string pairs is a functional-correctness statement about a third-party crate's runtime values.",
 "N05": "Equality with textbook metric values (ties included) is arithmetic over runtime data; only the shape, type and wiring of these routines is decided (C03, C04, C05).",
 "N06": "Agreement of direct and FFT convolution is a floating-point identity over runtime data.",
 "N07": "Equality of the entropy measures with their definitions quantifies over numeric runtime data.",
 "N08": "Distributional correctness is a statement about random draws, not decidable from the source; that draws come only from the seed is C10.",
 "N09": "Sizes after ratio arithmetic depend on runtime row counts and rounding.",
 "N10": "Equality with the reference stemmer for every word is functional equivalence with an external program; the structural well-formedness of its tables is C22.",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(H, "vf", "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        ns = {}
        for st in ast.parse(open(f).read()).body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id in ("RULE", "TECHNIQUE", "TRUST"):
                ns[st.targets[0].id] = ast.literal_eval(st.value)
        cmd = "python3 -m vf.check " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % p["id"], "technique": "static analysis: " + ns["TECHNIQUE"],
                       "level": "other", "level_note": ns["RULE"] + " Assumes: " + "; ".join(ns["TRUST"]) + ". Constructs the analysis cannot resolve are listed as undecided in the evidence and raise no alarm."})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "No check has been built for this property yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they read /repo/python syntax trees and the MIR that the repository's own rustc emits for /repo/src; nothing of the code under test is executed."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
