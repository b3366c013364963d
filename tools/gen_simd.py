"""Vector programs (C08)."""
import random, re
from lirgen import *
from gen_mem import MemGen
from gen_float import rf, isnan, fbits

SIMD = ["x86_64", "x86_32", "aarch64", "armv7", "armt2", "s390x", "loongarch64", "riscv64_ext"]
LG = {8: 0, 16: 1, 32: 2, 64: 3, 128: 4, 256: 5}


class SimdGen(MemGen):
    anybase = False

    def vt(self, n, e, *opts):
        return "+".join(["SIMD_REG_%d" % (8 * n), "SIMD_ELEM_%d" % (8 * e)] + [o for o in opts if o])

    def n(self):
        p, rng = self.p, self.rng
        if p.vsize == 8:
            return 8
        if p.vsize == 32:
            return rng.choice([32, 32, 16])
        return rng.choice([8, 16]) if getattr(p, "reg64", False) else 16

    def elem(self, n, lo=1, hi=8):
        return self.rng.choice([e for e in (1, 2, 4, 8) if lo <= e <= hi])

    def v(self):
        return self.rng.randrange(self.p.nv)

    def emit(self, text, ins):
        """an optional instruction: the program does not depend on its presence"""
        p = self.p
        k = len(p.jins) + 1
        if p.pairs and "SIMD_REG_128" in text:     # either half names the pair
            text = re.sub(r" v(\d+)", lambda m: " v%d" % (int(m.group(1)) ^ (self.rng.random() < 0.3)), text)
        p.both("?%d %s" % (k, text), ins)

    def vmem(self, n, align):
        return self.addrmem(n, align=align, dst=True, local=align <= self.p.w)

    def movm(self, o, v, size):
        p = self.p
        nm = {1: "MOV_U8", 2: "MOV_U16", 4: "MOV32" if p.w == 8 else "MOV", 8: "MOV"}[size]
        p.both("op1 %s %s %s" % (nm, p.text_of(o), p.text_of(("i", v))), ["op1", nm.replace("32", "") if size < 4 else "MOV", size if size >= 4 else p.w, p.json_of(o), p.json_of(("i", v))])

    def opts(self, float_ok, e):
        return self.rng.choice(["SIMD_FLOAT", "", ""]) if float_ok and e in (4, 8) else ""

    # ---- instructions
    def mov(self):
        p, rng = self.p, self.rng
        n = self.n()
        e = rng.choice([x for x in (1, 2, 4, 8, 16, 32) if x <= n])
        st = rng.random() < 0.45
        fl = self.opts(True, e)
        if rng.random() < 0.3:
            o, al = ("v", self.v()), ""
        else:
            al = rng.choice([a for a in (8, 8, 16, 32, 64, 128, 256) if a // 8 <= n])
            o = self.vmem(n, al // 8)
            al = "SIMD_MEM_ALIGNED_%d" % al if al > 8 else "SIMD_MEM_UNALIGNED"
        a = self.v()
        self.emit("smov %s %s %s" % (self.vt(n, e, "SIMD_STORE" if st else "SIMD_LOAD", fl, al), p.text_of(("v", a)), p.text_of(o)),
                  ["smov", int(st), n, a + 1, p.json_of(o)])

    def scalar(self, e, fl, dst=False, imm=True):
        """operand for an element; always initialised"""
        p, rng = self.p, self.rng
        c = rng.random()
        if c < 0.4 or (not fl and e > p.w):
            return self.addrmem(e, dst=dst)
        if fl:
            f = rng.randrange(p.nf)
            v = rf(rng, e, False)
            p.both("fset%d %s %x" % (8 * e, p.freg(f), v), ["fset", f + 1, word(v, e)])
            p.fkind[f] = str(e)
            return ("f", f)
        if imm and not dst and c < 0.65:
            v = rimm(rng, 8 * min(e, p.w), self.pats[32 if e <= 4 else 64])
            if rng.random() < 0.5:        # immediates of the vector instructions
                b = rng.choice([0, 1, 0x80, 0xff, 0x7f, rng.getrandbits(8)])
                v = rng.choice([b, b << 8 * rng.randrange(e), b * (0x0101010101010101 >> 8 * (8 - e)) if e > 1 else b,
                                ~(b << 8 * rng.randrange(e)), (b << 8 | 255) << 8 * rng.randrange(e), (b << 16 | 0xffff),
                                sum(0xff << 8 * i for i in range(e) if rng.random() < 0.5), rng.randrange(-16, 16), 1 << rng.randrange(8 * e),
                                (rng.randrange(64, 128) << 19) if e == 4 else rng.getrandbits(8)])
            if rng.random() < 0.7:
                v = sx(v, 8 * min(e, p.w)) if rng.random() < 0.7 else v & ((1 << 8 * min(e, p.w)) - 1)
            return ("i", v)
        r = self.dstreg()
        self.movi(r, rval(rng, 8 * p.w))
        self.hold.add(r)
        return ("r", r)

    def replicate(self):
        p, rng = self.p, self.rng
        n = self.n()
        e = self.elem(n)
        fl = self.opts(True, e)
        if n == 8 and e == 8:
            e, fl = 4, ""
        a = self.v()
        o = ("i", 0) if rng.random() < 0.15 else self.scalar(e, fl)
        if o[0] == "r" and e > p.w:
            return
        self.emit("srep %s %s %s" % (self.vt(n, e, fl), p.text_of(("v", a)), p.text_of(o)), ["srep", n, e, a + 1, p.json_of(o)])

    def lane(self):
        p, rng = self.p, self.rng
        n = self.n()
        e = self.elem(n, hi=n // 2)
        fl = self.opts(True, e)
        a = self.v()
        lane = rng.randrange(n // e)
        if rng.random() < 0.2:
            lane = rng.choice([0, n // e - 1, n // e // 2])
        st = rng.random() < 0.5
        o = self.scalar(e, fl, dst=st)
        is32 = not fl and e <= 4 and rng.random() < 0.4
        sg = st and not fl and rng.random() < 0.5
        z = not st and rng.random() < 0.35
        w = 4 if is32 else p.w
        if o[0] == "r":
            # the register holds a value of the form the instruction leaves there
            self.movi(o[1], rval(rng, 8 * w) if w == p.w else sx(rval(rng, 32), 32), w)
        self.emit("slane %s %s %d %s" % (self.vt(n, e, "SIMD_STORE" if st else "SIMD_LOAD", fl, "SIMD_LANE_SIGNED" if sg else "", "SIMD_LANE_ZERO" if z else "",
                                                 "32" if is32 else ""), p.text_of(("v", a)), lane, p.text_of(o)),
                  ["slane", int(st), n, e, a + 1, lane, p.json_of(o), int(z), int(sg), w])
        if st and o[0] == "r":
            self.setdst(o[1], w)

    def lanerep(self):
        p, rng = self.p, self.rng
        n = self.n()
        e = self.elem(n, hi=n // 2)
        a, b = self.v(), self.v()
        lane = rng.randrange(n // e)
        self.emit("slrep %s %s %s %d" % (self.vt(n, e, self.opts(True, e)), p.text_of(("v", a)), p.text_of(("v", b)), lane), ["slrep", n, e, a + 1, b + 1, lane])

    def fvec(self, n, lanes):
        """binary32 values (no NaN) in memory; absolute address"""
        p, rng = self.p, self.rng
        a = D + 0x2000 + 64 * rng.randrange(16)
        for i in range(lanes):
            self.movm(("m", None, None, 0, a + 4 * i), sx(rf(rng, 4, False), 32) if p.w == 8 else rf(rng, 4, False), 4)
        return a

    def extend(self):
        p, rng = self.p, self.rng
        n = self.n()
        fl = rng.random() < 0.2
        if fl:
            e, e2 = 4, 8
            if n == 8:
                return
            a = self.fvec(n, 8)
            o = ("m", None, None, 0, a)
            if rng.random() < 0.5:
                b = self.v()
                p.both("smov %s %s %s" % (self.vt(16, 4, "SIMD_LOAD", "SIMD_MEM_UNALIGNED"), p.text_of(("v", b)), p.text_of(o)), ["smov", 0, 16, b + 1, p.json_of(o)])
                o = ("v", b)
            sg = False
        else:
            e, e2 = rng.choice([(x, y) for x in (1, 2, 4) for y in (2, 4, 8) if x < y < n])
            sg = rng.random() < 0.5
            o = ("v", self.v()) if rng.random() < 0.5 else self.vmem(n // e2 * e, e)
        a = self.v() if rng.random() < 0.7 or o[0] != "v" else o[1]
        self.emit("sext %s %s %s" % (self.vt(n, e, "SIMD_FLOAT" if fl else "", "SIMD_EXTEND_SIGNED" if sg else "", "SIMD_EXTEND_%d" % (8 * e2)),
                                     p.text_of(("v", a)), p.text_of(o)), ["sext", n, e, e2, int(sg), int(fl), a + 1, p.json_of(o)])

    def sign(self):
        p, rng = self.p, self.rng
        n = self.n()
        e = self.elem(n, hi=n // 2)
        fl = self.opts(True, e)
        a = self.v()
        is32 = rng.random() < 0.4
        w = 4 if is32 else p.w
        if rng.random() < 0.3:
            d = self.addrmem(w, dst=True)
        else:
            d = ("r", self.dstreg())
            self.movi(d[1], rval(rng, 8 * w) if w == p.w else sx(rval(rng, 32), 32), w)
        self.emit("ssign %s %s %s" % (self.vt(n, e, "SIMD_STORE", fl, "32" if is32 else ""), p.text_of(("v", a)), p.text_of(d)), ["ssign", n, e, w, a + 1, p.json_of(d)])
        if d[0] == "r":
            self.setdst(d[1], w)

    def op2(self, *a, **k):
        if a or k:
            return super().op2(*a, **k)
        p, rng = self.p, self.rng
        n = self.n()
        name = rng.choice(["AND", "OR", "XOR", "SHUFFLE"])
        d, s = self.v(), self.v()
        if rng.random() < 0.3:
            d = s
        al = ""
        if name == "SHUFFLE":
            e, fl = 1, ""
            base = 64 * rng.randrange(16)
            c = rng.random()
            idx = list(range(n)) if c < 0.1 else [n - 1 - i for i in range(n)] if c < 0.2 else [rng.randrange(n)] * n if c < 0.3 else [rng.randrange(n) for _ in range(n)]
            a = D + 0x2800 + base
            for i in range(16 if n < 16 else n):
                self.movm(("m", None, None, 0, a + i), idx[i % n], 1)
            o = ("m", None, None, 0, a)
            if rng.random() < 0.6:
                b = self.v()
                p.both("smov %s %s %s" % (self.vt(max(n, min(16, p.vsize)), 4, "SIMD_LOAD", "SIMD_MEM_UNALIGNED"), p.text_of(("v", b)), p.text_of(o)),
                       ["smov", 0, max(n, min(16, p.vsize)), b + 1, p.json_of(o)])
                o = ("v", b)
        else:
            e = rng.choice([x for x in (1, 2, 4, 8, 16, 32) if x <= n])
            fl = self.opts(True, e)
            if rng.random() < 0.5:
                o = ("v", self.v())
            else:
                al = rng.choice([a for a in (8, 8, 16, 32, 64, 128, 256) if a // 8 <= n])
                o = self.vmem(n, al // 8)
                al = "SIMD_MEM_ALIGNED_%d" % al if al > 8 else ""
        self.emit("sop2 %s %s %s %s" % (self.vt(n, e, "SIMD_OP2_" + name, fl, al), p.text_of(("v", d)), p.text_of(("v", s)), p.text_of(o)),
                  ["sop2", name, n, d + 1, s + 1, p.json_of(o)])

    def vobs(self):
        self.p.obs("v")


def c08_random(w, n, seed, per=9, tag="rnd", vmaps=None, vsize=16, opts=0, reg64=False, fsc=2, allbase=False, pairs=False):
    rng = random.Random(seed * 29 + 3)
    pats = makepats(rng)
    out = []
    for k in range(n):
        vmap = rng.choice(vmaps) if vmaps else [2, 4] if w == 4 else [2, 4, 6]
        nv = max(vmap) + 1
        nv += nv % 2 if w == 4 and max(vmap) != 6 else 0       # pairs of registers
        sv = rng.choice([6, 6, 5, 4, 3])
        anybase = allbase or w == 8 or k % 4 == 1
        sc = 12 - sv if anybase or rng.random() < 0.7 else 6
        local = rng.choice([0, 16, 64, 256, 1000, 5008, 40000])
        p = Prog("C08-%s-%d-%d" % (tag, w, k), w, sc, sv, fsc=max(fsc, nv if fsc else 0), vsc=nv, vsize=vsize, vmap=vmap, local=local, opts=opts)
        g = SimdGen(p, rng, pats)
        g.anybase = p.allbase = anybase
        p.unal, p.reg64, p.pairs = False, reg64, pairs
        for i in range(p.nr):
            p.init[i] = rval(rng, 8 * w)
        p.nf = fsc
        p.finit = [rng.getrandbits(64) & ~(0x7ff << 52) | rng.randrange(1, 0x7fe) << 52 for _ in range(p.nf)]
        p.fkind = ["8"] * p.nf
        p.vinit = [[rng.getrandbits(8) if rng.random() < 0.8 else rng.choice([0, 255, 128, 127]) for _ in range(vsize)] for _ in range(p.nv)]
        for _ in range(per):
            g.hold = set()
            if rng.random() < 0.12:
                FlagKeep(g)
            c = rng.random()
            if c < 0.18:
                g.mov()
            elif c < 0.36:
                g.replicate()
            elif c < 0.58:
                g.lane()
            elif c < 0.66:
                g.lanerep()
            elif c < 0.78:
                g.extend()
            elif c < 0.86:
                g.sign()
            else:
                g.op2()
            if g.flags:
                g.consume(nojump=True)
                g.flags = None
            c = rng.random()
            if c < 0.55:
                p.obs("v")
            if c < 0.2 and p.nf:
                p.obs("f")
            if c < 0.15:
                g.hold = set()
                g.sync()
        g.hold = set()
        p.obs("v")
        if p.nf:
            p.obs("f")
        out.append(finish(p, g))
    return out


def FlagKeep(g):
    """flags which have to survive the next vector instruction"""
    g.producer(kind="op2u")
    if g.flags and g.flags[1] == "CARRY":
        g.flags = None
    g.hold = set()


def sets(n, seed):
    """{word size or backend: programs}"""
    s = {}
    for w in (4, 8):
        s[w] = c08_random(w, n, seed, tag="rnd")
    rng = random.Random(seed)

    def maps(lo, hi, k=12, step=1):
        return [rng.sample(range(lo, hi, step), 3) for _ in range(k)]
    pairs = [rng.sample([2, 4, 7, 9, 11, 13], 3) for _ in range(12)]     # the lower halves of the pairs
    q = max(n // 2, 4)
    s["x86_64"] = c08_random(8, q, seed + 1, tag="x64", vmaps=maps(2, 15)) + \
        c08_random(8, q // 2, seed + 2, tag="x64vex", vmaps=maps(2, 15), opts=0x10000) + \
        c08_random(8, q, seed + 3, tag="x64ymm", vmaps=maps(2, 15), vsize=32, opts=rng.choice([0, 0x10000]))
    s["x86_32"] = c08_random(4, q // 2, seed + 2, tag="x32vex", vmaps=maps(2, 7), opts=0x10000) + c08_random(4, q // 2, seed + 3, tag="x32ymm", vmaps=maps(2, 7), vsize=32)
    s["aarch64"] = c08_random(8, q, seed + 4, tag="a64", vmaps=maps(2, 30), reg64=True)
    a32 = c08_random(4, q, seed + 5, tag="a32", vmaps=pairs, reg64=True, allbase=True, pairs=True)
    s["armv7"] = a32
    s["armt2"] = c08_random(4, q, seed + 11, tag="t2", vmaps=pairs, reg64=True, allbase=True, pairs=True) + \
        c08_random(4, q, seed + 10, tag="d64", vmaps=maps(2, 14), vsize=8, reg64=True, allbase=True)
    s["s390x"] = c08_random(8, q, seed + 6, tag="s390", vmaps=maps(2, 15))
    s["loongarch64"] = c08_random(8, q, seed + 7, tag="la", vmaps=maps(2, 30)) + c08_random(8, q, seed + 8, tag="lasx", vmaps=maps(2, 30), vsize=32)
    s["riscv64_ext"] = c08_random(8, q, seed + 9, tag="rv", vmaps=maps(1, 30), fsc=2)
    return s
