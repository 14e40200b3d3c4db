"""setup: checks that the tools the engine needs are there and that a trivial obligation is decided"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import numpy
import scipy.special
import mpmath
import build
from norm import Norm, rconst
assert os.path.exists(build.CLANG)
x = z3.Real('x')
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
N = Norm()
assert N.mul(N.sqrt(rconst(2)), N.sqrt(rconst(2))).val() == 2
print('engine ok: z3', z3.get_version_string())
