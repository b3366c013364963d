"""C02: status flags and everything that consumes them (op_flags, select, jumps, cmp, op2cmpz, scf)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import lirgen

rep = Report("C02")
laws(rep, [("WordLaws", (1, 4)), ("WordLaws", (2, 2))])
n = 8000 if THOROUGH else 1200
for r in range(3 if THOROUGH else 1):
    s = SEED * 100 + r
    sets = {w: lirgen.c02_random(w, n, s) + lirgen.c02_edges(w, s, npairs=12 if THOROUGH else 3) for w in (4, 8)}
    conform(rep, sets, CODEGEN + V_INT)
rep.finish()
