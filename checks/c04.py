"""C04: an instruction changes nothing but its destination, in functions with any number of registers and locals."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_all

rep = Report("C04")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + V_FLOAT
read_registers(archs)
for r in range(4 if THOROUGH else 1):
    n = int(os.environ.get("C04_N", 300 if THOROUGH else 80))
    conform(rep, {a: gen_all.c04_random(ARCHS[a], n, SEED * 100 + r) for a in archs}, archs)
rep.finish()
