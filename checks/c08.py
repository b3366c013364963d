"""C08: vector instructions.  Random vector programs run on every backend which has them; every program is validated
against spec/Lir.tla.  Instructions a backend declines must leave no trace and the query must agree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_simd
from gen_mem import applies

rep = Report("C08")
archs = [a for a in CODEGEN if a in gen_simd.SIMD] + V_SIMD
for r in range(5 if THOROUGH else 1):
    n = int(os.environ.get("C08_N", 2000 if THOROUGH else 500))
    conform(rep, gen_simd.sets(n, SEED * 100 + r), archs, applies=applies, optional=("init",))
rep.finish()
