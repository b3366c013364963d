"""programs of machine instructions encoded by hand from the register numbers the library reports"""
import random
from vlib import *
from lirgen import Prog, rval
from gen_float import rf


def custom(A, n, seed, steps=24):
    rng = random.Random("%s custom %d" % (A.name, seed))
    out = []
    N, NS = A.nr
    NF, NFS = A.nfr
    for k in range(n):
        sv = rng.choice([NS, rng.randrange(1, NS + 1)])
        sc = N - sv if rng.random() < 0.6 else rng.randrange(1, N - sv + 1)
        fsv = rng.choice([NFS, rng.randrange(0, NFS + 1)])
        fsc = NF - fsv if rng.random() < 0.6 else rng.randrange(1, NF - fsv + 1)
        p = Prog("C19-cust-%s-%d-%d" % (A.name, seed, k), A.w, sc, sv, fsc=fsc, fsv=fsv)
        p.finit = [rf(rng, 8, nan=False) for _ in range(p.nf)]
        for i in range(p.nr):
            p.init[i] = rval(rng, 8 * A.w)
        # on x86-32 the registers from R3 to R8 have no machine register
        regs = [i for i in range(p.nr) if not (A.virt and (3 <= i < sc or (i >= sc and p.reg(i)[0] == "s" and int(p.reg(i)[1:]) >= 3)))]
        for _ in range(steps):
            if rng.random() < 0.6:
                d, s = rng.choice(regs), rng.choice(regs)
                p.both("custom %s %s" % (p.reg(d), p.reg(s)), ["op1", "MOV", A.w, p.json_of(("r", d)), p.json_of(("r", s))])
            elif rng.random() < 0.8:
                d, s = rng.randrange(p.nf), rng.randrange(p.nf)
                p.both("fcustom %s %s" % (p.freg(d), p.freg(s)), ["fop1", "MOV", 8, p.json_of(("f", d)), p.json_of(("f", s))])
            else:
                d, s = rng.choice(regs), rng.choice(regs)
                p.both("op2 ADD %s %s %s" % (p.reg(d), p.reg(d), p.reg(s)), ["op2", "ADD", A.w, 0, "", p.json_of(("r", d)), p.json_of(("r", d)), p.json_of(("r", s))])
            if rng.random() < 0.2:
                p.obs("r")
                p.obs("f")
        p.obs("r")
        p.obs("f")
        p.end()
        out.append(p)
    return out
