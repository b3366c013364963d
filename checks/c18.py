"""C18: programs compiled by several compilers at the same time, in one thread and in several threads."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from mix import mixed

rep = Report("C18")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + V_FLOW
read_registers(archs)
for r in range(4 if THOROUGH else 1):
    n = int(os.environ.get("C18_N", 600 if THOROUGH else 100))
    sets, kw = mixed(archs, n, SEED * 100 + r)
    bins = build(archs, "lirrun.c", key="-r%d" % r, **kw)
    conform(rep, sets, archs, bins=bins, mode="inter")
    conform(rep, sets, archs, bins=bins, mode="threads")
rep.finish()
