"""C06: function calls, frames and the ABI."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_call

rep = Report("C06")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + V_FLOW
read_registers(archs)
for r in range(4 if THOROUGH else 1):
    n = int(os.environ.get("C06_N", 600 if THOROUGH else 110))
    m = int(os.environ.get("C06_M", 400 if THOROUGH else 80))
    seed = SEED * 100 + r
    sets = {w: gen_call.c06_random(w, n, seed) for w in (4, 8)}
    for a in archs:
        A = ARCHS[a]
        sets[a] = gen_call.c06_random(A.w, m, seed + 7, prof=A.nr + A.nfr, tag=a)
    d = os.path.join(tmpdir(), "gen%d" % r)
    os.makedirs(d)
    with open(os.path.join(d, "gencalls.h"), "w") as h:
        h.write(gen_call.gencalls([p for ps in sets.values() for p in ps]))
    bins = build(archs, "lirrun.c", extra="-DLIR_CALLS", key="-c%d" % r, inc="-I" + d)
    conform(rep, sets, archs, bins=bins)
rep.finish()
