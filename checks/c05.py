"""C05: jumps, labels, fast calls, label addresses and jump tables in arbitrary control flow and at every distance."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_cf

rep = Report("C05")
archs = CODEGEN + V_FLOW
bins = build(archs, "lirrun.c")
n = 900 if THOROUGH else 130
for r in range(4 if THOROUGH else 1):
    conform(rep, {w: gen_cf.c05_random(w, n, SEED * 100 + r) for w in (4, 8)}, archs, bins=bins)
conform(rep, {a: gen_cf.c05_distances(a, ARCHS[a].w, SEED, span=20 if THOROUGH else 8) for a in archs}, archs, bins=bins)
if THOROUGH:
    conform(rep, {a: gen_cf.c05_distances(a, ARCHS[a].w, SEED, True, 3) for a in archs}, archs, bins=bins)
rep.finish()
