"""C11: programs compiled with serialization and restoring at arbitrary points behave like the specification."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from mix import mixed

rep = Report("C11")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + V_FLOW
read_registers(archs)
for r in range(4 if THOROUGH else 1):
    n = int(os.environ.get("C11_N", 600 if THOROUGH else 100))
    sets, kw = mixed(archs, n, SEED * 100 + r)
    bins = build(archs, "lirrun.c", key="-r%d" % r, **kw)
    conform(rep, sets, archs, bins=bins, mode=os.environ.get("C11_MODE", "serial"))
    # without the debug information
    sets, kw = mixed(archs, n // 2, SEED * 100 + r + 40, tag="nd")
    kw["extra"] += " -DSLJIT_DEBUG=0"
    bins = build(archs, "lirrun.c", key="-n%d" % r, **kw)
    conform(rep, sets, archs, bins=bins, mode=os.environ.get("C11_MODE", "serial"))
rep.finish()
