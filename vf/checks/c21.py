"""C21: neighbour search: the index of src/arkadia, the native routines of src/num_ext/knn and the native index class of src/pymodels/py_kdt, against the reference routines of spec/ref/native."""
RULE = ("neighbour search: the index of src/arkadia, the native routines of src/num_ext/knn and the native index class of src/pymodels/py_kdt: each is brought to normal form over its arguments on every path (its helpers looked through, inner functions that both programs share compared on their own), and so is the reference routine of the same name in spec/ref/native; "
        "the two must give the same result under the same conditions; a routine whose intermediate code equals the reference's holds without that")
TECHNIQUE = "path-sensitive abstract interpretation of MIR to normal forms; equality with the normal forms of a reference implementation"
TRUST = ["the reference routines in spec/ref/native state the intended computation", "library functions are pure in their arguments unless they take them mutably"]
from ..equiv import run_group

def pick(c): return "arkadia::" in c or "::knn::" in c or "py_kdt" in c
def run(ctx, rep): run_group(ctx, rep, pick, "builds or searches otherwise than its reference", 12)
