"""program sets which use every part of the specification, for the checks about compilers rather than instructions"""
import os
from vlib import *
import lirgen, gen_mem, gen_cf, gen_float, gen_call, gen_all


def mixed(archs, n, seed, which="icmfpa", tag=""):
    """{w or arch: [programs]}; about n programs per backend; returns also the build options"""
    per = max(1, n // len(which))
    sets = {}
    for w in (4, 8):
        ps = []
        if "i" in which:
            ps += lirgen.c01_random(w, per // 2, seed + 900, tag="mix" + tag) + lirgen.c02_random(w, per - per // 2, seed + 901, tag="mix" + tag)
        if "f" in which:
            ps += gen_float.c07_random(w, per, seed + 902, tag="mix" + tag)
        if "c" in which:
            ps += gen_cf.c05_random(w, per, seed + 903)
        if "p" in which:
            ps += gen_call.c06_random(w, per, seed + 904, tag="mix" + tag)
        sets[w] = ps
    if "a" in which:
        for a in archs:
            sets[a] = gen_all.c04_random(ARCHS[a], per, seed + 905, tag="mix" + tag)
    d = os.path.join(tmpdir(), "gen-%d%s" % (seed, tag))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "gencalls.h"), "w") as h:
        h.write(gen_call.gencalls([p for ps in sets.values() for p in ps if hasattr(p, "used")]))
    return sets, dict(extra="-DLIR_CALLS", inc="-I" + d)
