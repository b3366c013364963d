"""C17: code generated into buffers of every size, exact fit included, between guard bytes, through two mappings."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from mix import mixed
import gen_cf

rep = Report("C17")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + V_FLOW
read_registers(archs)
for r in range(4 if THOROUGH else 1):
    n = int(os.environ.get("C17_N", 400 if THOROUGH else 80))
    sets, kw = mixed(archs, n, SEED * 100 + r + 70)
    for w in (4, 8):
        sets[w] = sets[w] + gen_cf.c17_places(w, n // 2, SEED * 100 + r)
    # code which is written at one address and executed at another one
    dual = dict(kw, extra=kw["extra"] + " -DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1")
    conform(rep, sets, archs, bins=build(archs, "lirrun.c", key="-d%d" % r, **dual), mode="buffer")
    half = {k: ps[::3] for k, ps in sets.items()}
    conform(rep, half, archs, bins=build(archs, "lirrun.c", key="-r%d" % r, **kw), mode="buffer")
rep.finish()
