"""C10: programs whose constants, rewritable jumps and calls and tables are changed while they run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_patch, gen_call

rep = Report("C10")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + V_FLOW
d = os.path.join(tmpdir(), "gen")
os.makedirs(d)
with open(os.path.join(d, "gencalls.h"), "w") as h:
    h.write(gen_call.gencalls([]))
kw = dict(extra="-DLIR_CALLS", inc="-I" + d)
bins = build(archs, "lirrun.c", key="-r", **kw)
# code which is written at one address and executed at another one
kw["extra"] += " -DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"
dual = build(archs, "lirrun.c", key="-d", **kw)
for r in range(4 if THOROUGH else 1):
    n = int(os.environ.get("C10_N", 500 if THOROUGH else 80))
    conform(rep, {w: gen_patch.c10_random(w, n, SEED * 100 + r) for w in (4, 8)}, archs, bins=bins)
    conform(rep, {w: gen_patch.c10_random(w, n // 2, SEED * 100 + r + 50) for w in (4, 8)}, archs, bins=dual, mode="buffer")
rep.finish()
