"""setup_cmd: nothing to compile; checks that the analyser imports and that the crate's MIR can be produced."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import mir, pysym, native, mterm, builders, check
p = mir.load()
print("MIR functions:", len(p.fns))
p = mir.load_reference()
print("reference MIR functions:", len(p.fns))
