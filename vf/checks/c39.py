"""C39: text functions: the native routines of src/str_ext, the stemmer and its tables, against the reference routines of spec/ref/native."""
RULE = ("text functions: the native routines of src/str_ext, the stemmer and its tables: each is brought to normal form over its arguments on every path (its helpers looked through, inner functions that both programs share compared on their own), and so is the reference routine of the same name in spec/ref/native; "
        "the two must give the same result under the same conditions; a routine whose intermediate code equals the reference's holds without that")
TECHNIQUE = "path-sensitive abstract interpretation of MIR to normal forms; equality with the normal forms of a reference implementation"
TRUST = ["the reference routines in spec/ref/native state the intended computation", "library functions are pure in their arguments unless they take them mutably"]
from ..equiv import run_group

def pick(c): return "str_ext::" in c
def run(ctx, rep): run_group(ctx, rep, pick, "computes another result than its reference", 30)
