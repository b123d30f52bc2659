"""Nothing is built ahead of time: every check encodes /repo's source anew. This only verifies that
the interpreter, numpy, numba and the solver are there and that the engine works."""

import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
import numpy  # noqa: E402,F401
import numba  # noqa: E402,F401
import scipy  # noqa: E402,F401
from vsym import engine  # noqa: E402

z3 = engine.load_z3()
x = z3.Real("x")
s = z3.Solver()
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
s.add(x > 2)
assert s.check() == z3.unsat
print("ok: z3", z3.get_version_string())
