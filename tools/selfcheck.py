"""setup: the interpreter and the solver the checks need are there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import env  # noqa: E402

env.setup("/tmp")
import z3  # noqa: E402

x = z3.Int("x")
s = z3.Solver()
s.add(x > 1, x < 3)
assert s.check() == z3.sat and s.model()[x].as_long() == 2
print("ok")
