"""Programs with atomic load / store pairs (C09), run by one thread."""
import random
from lirgen import *
from gen_mem import MemGen

OPS = ["MOV", "MOV", "MOV_P", "MOV32", "MOV32", "MOV_U32", "MOV_U8", "MOV_U8", "MOV_U16", "MOV_U16", "MOV_S8", "MOV_S16", "MOV_S32", "MOV_S32"]


class AtomicGen(MemGen):
    def movm(self, o, v, size):
        p = self.p
        nm = {1: "MOV_U8", 2: "MOV_U16", 4: "MOV32" if p.w == 8 else "MOV", 8: "MOV"}[size]
        p.both("op1 %s %s %s" % (nm, p.text_of(o), p.text_of(("i", v))),
               ["op1", nm.replace("32", "") if size < 4 else "MOV", size if size >= 4 else p.w, p.json_of(o), p.json_of(("i", v))])

    def pick(self, avoid, among=None):
        c = [i for i in (among or range(self.p.nr)) if i not in self.pins and i not in avoid]
        return self.rng.choice(c)

    def setv(self, r, v, w):
        """v in the form of width w"""
        self.movi(r, v if w == self.p.w else sx(v, 32), w)

    def transaction(self):
        p, rng = self.p, self.rng
        self.sync()
        self.hold = set()
        n = rng.choice(OPS)
        w = 4 if n == "MOV32" else p.w
        is32 = False
        if n in ("MOV_U8", "MOV_U16", "MOV_S8", "MOV_S16") and rng.random() < 0.4:
            is32, w = True, 4
        size = MSIZE.get(n, w)
        nm = opname(n, is32)
        mode = rng.choice(["", "", "+ATOMIC_USE_CAS", "+ATOMIC_USE_LS"])
        flag = rng.random() < 0.75
        sgn = n in ("MOV_S8", "MOV_S16", "MOV_S32")

        def ext(v):
            v &= (1 << 8 * size) - 1
            return sx(v, 8 * size) & ((1 << 8 * w) - 1) if sgn else v
        a = self.target(size, size, True)
        old = rval(rng, 8 * size) if rng.random() < 0.6 else rng.choice([0, (1 << 8 * size) - 1, 1 << (8 * size - 1)])
        self.movm(("m", None, None, 0, a), sx(old, 8 * size) if rng.random() < 0.5 else old, size)
        bs = [i for i in range(p.nr) if self.anybase or p.baseable(i)]
        m = self.pick((), bs)
        self.movi(m, a)
        used = {m}
        load = 0
        mismatch = mode.endswith("CAS") and rng.random() < 0.5
        exp = None
        if not (mode.endswith("CAS") and rng.random() < 0.35):
            m2 = m
            same = not self.nosame and rng.random() < 0.12
            if same:                 # the address is overwritten by the value
                m2 = self.pick(used, bs)
                self.movi(m2, a)
                used.add(m2)
                exp = m
            else:
                exp = self.pick(used)
            if exp != m:
                self.setv(exp, rval(rng, 8 * w), w)
            elif w != p.w:
                exp = self.pick(used)
                self.setv(exp, rval(rng, 8 * w), w)
                same, m2 = False, m
            else:
                same = True
            load = len(p.jins) + 1
            p.llsame |= same
            p.both("?%d aload %s %s %s" % (load, nm + mode, p.reg(exp), p.reg(m)), ["aload", n, w, exp + 1, m + 1])
            self.setdst(exp, w)
            self.unobs.discard(exp)
            m = m2
            used |= {exp, m}
        # the new value, computed from registers
        c = rng.random()
        if c < 0.5 and exp is not None:
            s = self.pick(used)
            k = rng.choice(["ADD", "XOR", "SUB"])
            o2 = ("i", rimm(rng, 8 * w, self.pats[8 * w]))
            if w < p.w:
                o2 = ("i", sx(o2[1], 32))
            p.both("op2 %s %s %s %s" % (opname(k, w < p.w), p.reg(s), p.reg(exp), p.text_of(o2)), ["op2", k, w, 0, "", p.json_of(("r", s)), p.json_of(("r", exp)), p.json_of(o2)])
            self.setdst(s, w)
            self.unobs.discard(s)
        elif c < 0.8:
            s = self.pick(used)
            self.setv(s, rval(rng, 8 * w), w)
        elif c < 0.9 and size <= 4:
            s = m                        # the address
        else:
            c = [i for i in range(p.nr) if i not in self.pins and i not in used and p.kind[i] == "w"]
            if not c:
                s = self.pick(used)
                self.setv(s, rval(rng, 8 * w), w)
            else:
                s = rng.choice(c)
        used.add(s)
        # the expected value
        if mode.endswith("LS") and rng.random() < 0.5:
            t = self.pick({m} if rng.random() < 0.5 else used)
        elif exp is None or mismatch:
            if exp is not None and rng.random() < 0.3 and exp not in (m, s):
                t = exp
            else:
                t = self.pick(used)
            v = old
            if mismatch:
                v = rng.choice([old ^ 1 << rng.randrange(8 * size), rval(rng, 8 * size), old + 1, old ^ (1 << 8 * size) - 1])
                if (v - old) & ((1 << 8 * size) - 1) == 0:
                    v = old ^ 1
            self.setv(t, ext(v), w)
        elif rng.random() < 0.6 and exp != s and exp != m:
            t = exp
        else:
            t = self.pick(used)
            mv = "MOV" if w == p.w else "MOV32"
            p.both("op1 %s %s %s" % (mv, p.reg(t), p.reg(exp)), ["op1", mv, w, p.json_of(("r", t)), p.json_of(("r", exp))])
            p.kind[t] = "w" if w == p.w else "4"
        k = len(p.jins) + 1
        p.both("?%d astore %s %s %s %s" % (k, nm + mode + ("+F.ATOMIC_STORED" if flag else ""), p.reg(s), p.reg(m), p.reg(t)),
               ["astore", n, w, s + 1, m + 1, t + 1, 0 if mode.endswith("LS") else 1, int(flag), load])
        if mismatch:
            p.kind[t] = "0"
        self.flags = None
        if flag:
            for _ in range(rng.choice([0, 1, 1, 2])):
                self.use(k, {s, m} | ({t} if mismatch else set()))
        if rng.random() < 0.9:
            self.sync()

    def use(self, k, avoid):
        """something which depends on the success"""
        p, rng = self.p, self.rng
        c = rng.choice(["ATOMIC_STORED", "ATOMIC_NOT_STORED"])
        w = rng.choice([p.w, 4])
        kd = rng.choice(["opf", "opf", "opl", "sel", "jmp"])
        pre = "&%d:" % k

        def emit(text, ins):
            p.both(pre + "%d " % (len(p.jins) + 1) + text, ins)

        # moves keep the flags
        if kd == "opf":
            if rng.random() < 0.25:
                d = ("m", None, None, 0, D + 0x2000 + 8 * rng.randrange(32))
            else:
                d = ("r", self.pick(avoid))
                self.setv(d[1], rval(rng, 8 * w), w)
            emit("opf %s %s %s" % ("MOV32" if w < p.w else "MOV", p.text_of(d), c), ["opf", "MOV", w, 0, p.json_of(d), c])
        elif kd == "opl":
            n = rng.choice(["AND", "OR", "XOR"])
            r = self.pick(avoid)
            self.setv(r, rng.choice([0, 1, 2, 255, (1 << 8 * w) - 1, rval(rng, 8 * w)]), w)
            emit("opf %s %s %s" % (opname(n, w < p.w), p.reg(r), c), ["opf", n, w, 0, p.json_of(("r", r)), c])
            # the flags are lost: nothing else may use them
            self.lost = True
            self.use = lambda *a: None
        elif kd == "sel":
            a, b = self.pick(avoid), self.pick(avoid)
            self.setv(a, rval(rng, 8 * w), w)
            self.setv(b, rval(rng, 8 * w), w)
            d = self.pick(avoid, [x for x in (a, b, self.pick(avoid))])
            if d not in (a, b):
                self.setv(d, rval(rng, 8 * w), w)
            s1 = ("r", a) if rng.random() < 0.6 else ("i", sx(rval(rng, 8 * w), 8 * w))
            emit("sel %s %s %s %s" % (c + ("+32" if w < p.w else ""), p.reg(d), p.text_of(s1), p.reg(b)), ["sel", c, w, d + 1, p.json_of(s1), b + 1])
        else:
            L = p.newlabel()
            emit("jmp %s %d" % (c, L), ["jmp", c, p.ref(L)])
            r = self.pick(avoid)
            k0 = p.kind[r]
            self.movi(r, rval(rng, 8 * p.w))
            if k0 != "w":
                p.kind[r] = "0"
            p.label(L)
            self.use = lambda *a: None


def c09_seq(w, n, seed, per=7, tag="seq", anybase=False, nr=None):
    rng = random.Random(seed * 31 + 9)
    pats = makepats(rng)
    out = []
    for k in range(n):
        sv = rng.choice([6, 6, 5, 4, 3])
        sc = 12 - sv
        local = rng.choice([0, 0, 16, 64, 1000])
        p = Prog("C09-%s-%d-%d" % (tag, w, k), w, sc, sv, local=local)
        g = AtomicGen(p, rng, pats)
        g.anybase = p.allbase = anybase or w == 8
        g.nosame = k % 3 > 0
        p.unal = p.llsame = False
        for i in range(p.nr):
            p.init[i] = rval(rng, 8 * w)
        loc = sorted({q for q in (0, w, 2 * w, 3 * w, local - w, local - 2 * w) if 0 <= q <= local - w})
        for q in loc:
            g.movm(("l", q // w * w), rval(rng, 31), w)
        for _ in range(per):
            g.__dict__.pop("use", None)
            g.transaction()
        g.sync()
        for i, q in enumerate(loc):
            p.both("op1 MOV %s %s" % (p.reg(i), p.text_of(("l", q // w * w))), ["op1", "MOV", w, p.json_of(("r", i)), p.json_of(("l", q // w * w))])
            p.kind[i] = "w"
        out.append(finish(p, g))
    return out


def sets(n, seed):
    return {8: c09_seq(8, n, seed), 4: c09_seq(4, n, seed) + c09_seq(4, n // 2, seed + 1, tag="any", anybase=True)}


def applies(p, A):
    # the emulator (qemu 8.2) records the loaded value as the address of ll.d / ll.w when both use the same register
    return not (p.llsame and A.base == "loongarch64") and not (p.allbase and A.virt)
