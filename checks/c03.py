"""C03: memory accesses of every form: addresses, bytes, extension, base updates, optional forms."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_mem

rep = Report("C03")
n = 6000 if THOROUGH else 1100
for r in range(4 if THOROUGH else 1):
    s = SEED * 100 + r
    conform(rep, {w: gen_mem.c03_random(w, n, s) + gen_mem.c03_edges(w, n // 10, s) for w in (4, 8)}, CODEGEN + V_INT, applies=gen_mem.applies)
rep.finish()
