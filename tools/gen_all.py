"""C04: programs which use every kind of instruction on functions with any number of registers and locals, and look at
every register after each instruction, and at the locals at the end."""
import random
from lirgen import *
from gen_mem import MemGen
from gen_float import FloatGen, rf


def setlocal(p, g, o, v, size):
    n = {1: "MOV_U8", 4: "MOV32" if p.w == 8 else "MOV", 8: "MOV"}[size]
    p.both("op1 %s %s %s" % (n, p.text_of(("l", o)), p.text_of(("i", v))),
           ["op1", "MOV_U8" if size == 1 else "MOV32" if n == "MOV32" else "MOV", p.w if size == 1 else size, p.json_of(("l", o)), p.json_of(("i", v))])
    g.lset |= set(range(o, o + size))


class AllGen:
    def __init__(self, p, rng, pats, floats):
        self.p, self.rng = p, rng
        self.g = MemGen(p, rng, pats)
        self.f = FloatGen(p, rng, pats)
        for k in ("unobs", "pins", "pinval", "lset"):
            setattr(self.f, k, getattr(self.g, k))
        self.floats = floats

    def step(self):
        rng, g, f = self.rng, self.g, self.f
        g.hold = set()
        f.hold = set()
        c = rng.random()
        if self.floats and c < 0.3:
            g.flags = None
            w = rng.choice([4, 8])
            k = rng.random()
            n = len(self.p.src)
            if k < 0.25:
                f.arith(w)
            elif k < 0.45:
                f.unary(w)
            elif k < 0.55:
                f.toint(w)
            elif k < 0.65:
                f.fromint(w)
            elif k < 0.7:
                f.setk(w)
            elif k < 0.8:
                f.copy(w)
            elif k < 0.97:
                f.compare(w)
            else:
                f.intsel(w)
            for t in self.p.src[n:]:        # the result may be a NaN, whose bytes are not specified
                t = t.split()
                if t[0] in ("fop1", "fop2") and t[2][0] == "L":
                    o = int(t[2][1:], 16)
                    g.lset -= set(range(o, o + 8))
            g.flags = None
            return "f"
        if c < 0.45:
            rng.choice([g.op1, g.ldst, g.ldst, g.unary])()
        elif c < 0.62:
            rng.choice([g.op2, g.binary])()
            g.flags = None
        elif c < 0.68:
            g.op0()
        elif c < 0.74:
            rng.choice([g.shi, g.muladd])()
        elif c < 0.8:
            g.memop()
        elif c < 0.84:
            g.memupdate()
        elif c < 0.88:
            g.misc()
        elif c < 0.96:
            g.producer()
            for _ in range(rng.choice([1, 1, 2])):
                if g.flags:
                    g.consume()
        else:
            g.cmpjump()
        g.flags = None
        return "r"


def c04_random(A, n, seed, steps=16, tag="all"):
    """A: architecture; every register it has may be used"""
    w = A.w
    rng = random.Random("%s %d %s" % (A.name, seed, tag))
    pats = makepats(rng)
    out = []
    N, NS = A.nr
    NF, NFS = A.nfr
    for k in range(n):
        c = rng.random()
        sv = rng.choice([NS, NS, 3, rng.randrange(3, NS + 1)])
        sc = N - sv if c < 0.6 else rng.randrange(4, N - sv + 1)
        fsv = rng.choice([NFS, 0, rng.randrange(0, NFS + 1)])
        fsc = NF - fsv if rng.random() < 0.6 else rng.randrange(min(6, NF - fsv), NF - fsv + 1)
        floats = rng.random() < 0.8
        local = rng.choice([0, 8, 16, 24, 64, 100, 1000, 2040, 4096, 5008, 32760, 40000])
        local -= local % w
        p = Prog("C04-%s-%s-%d-%d" % (tag, A.name, seed, k), w, sc, sv, fsc=fsc, fsv=fsv, local=local)
        p.finit = [rf(rng, 8, nan=False) for _ in range(p.nf)]
        for i in range(p.nr):
            p.init[i] = rval(rng, 8 * w)
        a = AllGen(p, rng, pats, floats)
        g = a.g
        g.anybase, g.unal = not A.virt, False
        if A.virt:
            bl = [i for i in range(p.nr) if p.baseable(i)]
        for i in rng.sample([sc, sc + 1, sc + 2], 1):          # a saved register holds the address of the buffer
            setpin(g, i, "b", D)
        # the locals
        cells = []
        if local:
            cells = sorted({0, local - w, (local // 2) // w * w} | {rng.randrange(local // w) * w for _ in range(6)})
            for o in cells:
                setlocal(p, g, o, rng.getrandbits(8 * w), w)
        for _ in range(steps):
            if len(p.masks) > 118:
                break
            t = a.step()
            g.hold = set()
            a.f.hold = set()
            g.sync()
            if t == "f" or rng.random() < 0.3:
                p.obs("f")
        p.obs("r")
        p.obs("f")
        # the locals again
        free = [i for i in range(p.nr) if i not in g.pins]
        for i, o in zip(free, [o for o in cells if all(k in g.lset for k in range(o, o + w))]):
            p.both("op1 MOV %s %s" % (p.reg(i), p.text_of(("l", o))), ["op1", "MOV", w, p.json_of(("r", i)), p.json_of(("l", o))])
            p.kind[i] = "w"
        p.obs("r")
        p.obs("f")
        p.end()
        p.allbase = not A.virt
        p.unal = False
        out.append(p)
    return out
