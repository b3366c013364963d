"""C07: floating point.  The float operators of the specification are checked exhaustively on a 7 bit format, then
random float programs run on every backend are validated against spec/Lir.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_float

rep = Report("C07")
laws(rep, [("FloatLaws", (1, 1 if THOROUGH else 13))])
for r in range(4 if THOROUGH else 1):
    n = 3000 if THOROUGH else 900
    conform(rep, {w: gen_float.c07_random(w, n, SEED * 100 + r) for w in (4, 8)}, CODEGEN + V_FLOAT)
rep.finish()
