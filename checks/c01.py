"""C01: integer operations.  Word algebra laws model checked exhaustively on small words, then programs of
integer operations run on every backend and validated against spec/Lir.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import lirgen

rep = Report("C01")
laws(rep, [("WordLaws", (1, 4)), ("WordLaws", (2, 2))] + ([("WordLaws", (3, 2)), ("WordLaws", (2, 3))] if THOROUGH else []))
n = 12000 if THOROUGH else 1500
for r in range(3 if THOROUGH else 1):
    sets = {w: lirgen.c01_random(w, n, SEED * 100 + r, dense=True) + lirgen.c01_random(w, n // 3, SEED * 100 + 50 + r, tag="long", per=16)
            + lirgen.c01_imms(w, SEED * 100 + r, frac=1 if THOROUGH else 0.3) for w in (4, 8)}
    conform(rep, sets, CODEGEN + V_INT)
rep.finish()
