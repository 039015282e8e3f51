"""Sanity check of the verifier's own environment."""
import os, sys, subprocess
from . import build
import z3
for t in ('clang++', 'opt', 'llvm-cxxfilt'):
    assert os.path.exists(build.LLVM + t), 'missing ' + t
x = z3.BitVec('x', 8); s = z3.Solver(); s.add(x != x)
assert s.check() == z3.unsat
os.makedirs(os.path.join(build.VERIF, 'evidence'), exist_ok=True)
print('ok: z3', z3.get_version_string())
