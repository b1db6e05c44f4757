"""C42: shared native helpers (src/utils): distances, haversine, matrix conversion, row partition, declared result fields, against the reference helpers of spec/ref/native."""
RULE = ("shared native helpers of src/utils (distances, haversine, conversion of columns to row-major data, row partition, declared result fields) and the ordering of neighbours: each is brought to normal form over its arguments on every path (its helpers looked through, inner functions that both programs share compared on their own), and so is the reference routine of the same name in spec/ref/native; "
        "the two must give the same result under the same conditions; a routine whose intermediate code equals the reference's holds without that")
TECHNIQUE = "path-sensitive abstract interpretation of MIR to normal forms; equality with the normal forms of a reference implementation"
TRUST = ["the reference routines in spec/ref/native state the intended computation", "library functions are pure in their arguments unless they take them mutably"]
from ..equiv import run_group, pair, live, check_once

def pick(c): return "utils::" in c.split(" ")[0] and "stats_utils" not in c or c.startswith(("<NB as", "<SplitMethod as"))
def run(ctx, rep):
    G = pair(ctx); p = G.p; alive = live(G)
    for c, f in sorted(p.b.items()):
        if pick(c) and f.kind == "fn" and "{closure" not in c and "promoted[" not in c and c in p.shared and c in alive:
            check_once(G, c, rep, "computes another result than its reference"); rep.count("helpers")
    rep.floor("helpers", 15)
    run_group(ctx, rep, pick, "computes another result than its reference", 0)
