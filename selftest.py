"""setup_cmd: the solver and the executor load and agree on a trivial query."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import loader as L
L.M()
L.real_modules()
import z3
x = z3.Real("x")
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
print("setup ok: z3", z3.get_version_string())
