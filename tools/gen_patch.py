"""Programs which are modified while they run (C10): constants, rewritable jumps and calls, tables in
read-only buffers, changed again and again between the iterations of a loop."""
import random
from lirgen import *
from gen_cf import newp

CNT, PTR, B = 7, 8, 6            # s1, s2, s0
HIST = 0x800
VALS = [0, 1, -1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffff800, 0x7ffff7ff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffff0000,
        0x8000000000000000, 0x7fffffffffffffff, 0xffffffff00000000, 0x1234567812345678, 0xfffff800, 0x7ff, 0x800, 0xfff, 0x1000, 0xffff0000, 0xffff0000ffff, 0xffffffff80000000, 0xffffffff7fffffff]


class Patch:
    def __init__(self, pid, w, rng):
        self.rng, self.w = rng, w
        self.p = p = newp(pid, w, rng)
        p.wantaddr = True
        self.n0 = rng.randrange(3, 8)
        p.init[B], p.init[CNT], p.init[PTR] = D, self.n0, D + HIST
        self.nj = self.nk = 0
        self.off = 0
        self.consts, self.jumps, self.calls, self.tables = [], [], [], []
        self.tail, self.pads, self.subs = [], [], []

    def R(self, i):
        return ("r", i)

    def mov(self, d, s, n="MOV", ww=None):
        p = self.p
        p.both("op1 %s %s %s" % (n, p.text_of(d), p.text_of(s)), ["op1", n, ww or p.w, p.json_of(d), p.json_of(s)])

    def op2(self, n, d, a, b, flags="", z=0, t=""):
        p = self.p
        p.both("op2 %s%s %s %s %s" % (n, flags, p.text_of(d), p.text_of(a), p.text_of(b)),
               ["op2", n, p.w, z, t, p.json_of(d), p.json_of(a), p.json_of(b)])

    def op2u(self, n, a, b, flags, z, t):
        p = self.p
        p.both("op2u %s%s %s %s" % (n, flags, p.text_of(a), p.text_of(b)), ["op2u", n, p.w, z, t, p.json_of(a), p.json_of(b)])

    def jmp(self, L):
        p = self.p
        p.both("jmp JUMP %d" % L, ["jmp", "JUMP", p.ref(L)])

    def nops(self, big=False):
        k = self.rng.choice([1, 2, 3, 7, 30, 63, 64, 126, 130] + ([1000, 1050, 2050, 5000] if big else []))
        self.p.both("nops %d" % k, ["op0", "NOP", self.w])

    def slot(self):
        self.off += 8
        return ("m", PTR, None, 0, self.off - 8)

    def tmp(self, base=False):
        return self.R(self.rng.choice([0, 1, 2] if base else [0, 1, 2, 3, 4, 5, 9, 10, 11]))

    def value(self, n, reg):
        rng, w = self.rng, self.w
        v = rng.choice(VALS + [rng.getrandbits(64), rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(12) << rng.randrange(52)])
        if "U8" in n:
            return rng.choice([-256, -255, -1, 0, 1, 127, 128, 255, rng.randrange(-256, 256)]) if reg else rng.randrange(256)
        if n in ("MOV32", "MOV_S32"):
            return sx(v, 32)
        return sx(v, 8 * w)

    def const(self):
        rng, p, w = self.rng, self.p, self.w
        n = rng.choice(["MOV", "MOV", "MOV", "MOV_U8", "MOV_S32", "MOV32", "MOV32_U8"] if w == 8 else ["MOV", "MOV", "MOV_U8", "MOV32", "MOV32_U8"])
        b, ww = ("MOV_U8" if "U8" in n else n), 4 if n.startswith("MOV32") else w
        d = rng.choice([self.tmp(), self.tmp(), self.slot(), ("l", 8 * rng.randrange(4)), ("m", None, None, 0, D + 0x2800 + 8 * rng.randrange(8))])
        v = self.value(n, d[0] == "r")
        idx, self.nk = self.nk, self.nk + 1
        p.both("const %s %s %s" % (n, p.text_of(d), p.hx(v)), ["const", b, ww, p.json_of(d), word(v, w), idx])
        self.consts.append((idx, n, d[0] == "r"))
        if d[0] == "r":
            if ww < w:
                self.mov(self.slot(), d, "MOV32", 4)
                self.op2fix(d)
            else:
                self.mov(self.slot(), d)
        elif d[0] == "l" or d[1] is None:
            t = self.tmp()
            if "U8" in n:
                self.mov(t, d, "MOV_U8")
            elif ww < w:
                self.mov(t, d, "MOV_S32")
            else:
                self.mov(t, d)
            self.mov(self.slot(), t)

    def op2fix(self, d):
        # full width again
        self.mov(d, ("i", 5))

    def tag(self, k):
        # destroys nothing: an immediate goes to memory
        self.mov(self.cur, ("i", k))

    def taken(self):
        """sets up a condition; returns (text, emitter) of a rewritable jump"""
        rng, p, w = self.rng, self.p, self.w
        RW = "+REWRITABLE_JUMP"
        kind = rng.choice(["jmp", "jmp", "cond", "cond", "cmp", "fcmp", "cmpz"])
        c = self.R(CNT)

        def emit(L):
            idx, self.nj = self.nj, self.nj + 1
            if kind == "jmp":
                p.both("jmp JUMP%s %d" % (RW, L), ["jmp", "JUMP", p.ref(L), idx])
            elif kind == "cond":
                k = rng.randrange(3)
                if k == 0:
                    self.op2u("AND", c, ("i", rng.choice([1, 2])), "+SET_Z", 1, "")
                    cn = rng.choice(["ZERO", "NOT_ZERO"])
                elif k == 1:
                    self.op2u("SUB", c, ("i", rng.randrange(0, 6)), "+F.LESS", 0, "LESS")
                    cn = rng.choice(["LESS", "GREATER_EQUAL"])
                else:
                    self.op2u("SUB", c, ("i", rng.randrange(0, 6)), "+F.SIG_GREATER", 0, "SIG_GREATER")
                    cn = rng.choice(["SIG_GREATER", "SIG_LESS_EQUAL"])
                p.both("jmp %s%s %d" % (cn, RW, L), ["jmp", cn, p.ref(L), idx])
            elif kind == "cmp":
                cn = rng.choice(["EQUAL", "NOT_EQUAL", "LESS", "GREATER", "SIG_LESS", "SIG_GREATER_EQUAL"])
                o = ("i", rng.choice([0, 1, 2, 3, 4, 5]))
                p.both("cmp %s%s %s %s %d" % (cn, RW, p.text_of(c), p.text_of(o), L), ["cmp", cn, w, p.json_of(c), p.json_of(o), p.ref(L), idx])
            elif kind == "fcmp":
                cn = rng.choice(["F_LESS", "F_NOT_EQUAL", "UNORDERED_OR_LESS", "ORDERED_GREATER"])
                a, b = rng.choice([(0, 1), (1, 0)])
                for k, x in ((0, 0x3ff0000000000000), (1, 0x4000000000000000)):
                    p.both("fset64 f%d %x" % (k, x), ["fset", k + 1, word(x, 8)])
                p.both("fcmp %s%s f%d f%d %d" % (cn, RW, a, b, L), ["fcmp", cn, 8, ["f", a + 1], ["f", b + 1], p.ref(L), idx])
            else:
                t = self.tmp()
                z = rng.randrange(2)
                p.both("op2cmpz AND%s%s %s %s #%s %d" % ("+IFZ" if z else "+IFNZ", RW, p.text_of(t), p.text_of(c), p.hx(1), L),
                       ["op2cmpz", "AND", w, "", z, p.json_of(t), p.json_of(c), ["i", word(1, w)], p.ref(L), idx])
            return idx
        return emit

    def jumpsite(self):
        rng, p = self.rng, self.p
        emit = self.taken()
        cur = self.slot()
        nalt = rng.randrange(2, 4)
        alts = [p.newlabel() for _ in range(nalt)]
        END = p.newlabel()
        idx = emit(rng.choice(alts))
        self.cur = cur
        self.tag(99)
        self.jmp(END)
        for k, a in enumerate(alts):
            if rng.random() < 0.4:
                self.tail.append((a, cur, 11 * (k + 1), END))
            else:
                if rng.random() < 0.3:
                    self.nops(rng.random() < 0.2)
                p.label(a)
                self.cur = cur
                self.tag(11 * (k + 1))
                self.jmp(END)
        p.label(END)
        padn = rng.choice([0, 1, 1, 2])
        pl = []
        for k in range(padn):
            if len(self.pads) < 6:
                self.pads.append((cur, 1000 + k, END, idx))
                pl.append(("pad", len(self.pads) - 1))
        self.jumps.append((idx, alts + pl))

    def fcallsite(self):
        rng, p = self.rng, self.p
        cur = self.slot()
        alts = [p.newlabel() for _ in range(rng.randrange(2, 4))]
        idx, self.nj = self.nj, self.nj + 1
        L = rng.choice(alts)
        p.both("fcall %d REWRITABLE_JUMP" % L, ["fcall", ["t", p.ref(L)], idx])
        for k, a in enumerate(alts):
            self.subs.append((a, cur, 300 + k))
        self.jumps.append((idx, alts))

    def callsite(self):
        rng, p, w = self.rng, self.p, self.w
        self.mov(self.R(0), self.R(PTR))
        idx, self.nj = self.nj, self.nj + 1
        k = rng.randrange(4)
        p.both("rcall %d" % k, ["rcall", idx, k])
        self.mov(self.slot(), self.R(0))
        self.calls.append(idx)

    def tablesite(self):
        rng, p, w = self.rng, self.p, self.w
        T = p.newlabel()
        alts = [p.newlabel() for _ in range(rng.randrange(2, 4))]
        END = p.newlabel()
        n = rng.randrange(1, 4)
        tab = [rng.choice(alts) for _ in range(n)]
        t1, t0 = self.R(1), self.R(2)
        cur = self.slot()
        p.both("opaddr MOV_ABS_ADDR %s %d" % (p.text_of(t1), T), ["opaddr", "MOV_ABS_ADDR", p.json_of(t1), T + 1])
        self.mov(t0, ("m", 1, None, 0, w * rng.randrange(n)))
        p.both("ijmp JUMP %s" % p.text_of(t0), ["ijmp", p.json_of(t0)])
        for k, a in enumerate(alts):
            p.label(a)
            self.cur = cur
            self.tag(500 + k)
            self.jmp(END)
        p.alabel([T], 3 if w == 8 else 2, [w * n])
        p.label(END)
        self.tables.append((len(p.tabs), T, alts, n))
        p.fill(T, tab)

    def build(self):
        rng, p, w = self.rng, self.p, self.w
        LOOP = p.newlabel()
        start = p.newlabel()
        self.jmp(start)
        p.label(LOOP)
        for _ in range(rng.randrange(3, 11)):
            if rng.random() < 0.3:
                self.nops()
            rng.choice([self.const, self.const, self.jumpsite, self.jumpsite, self.fcallsite, self.callsite, self.tablesite])()
        stride = max(8, self.off)
        self.op2("ADD", self.R(PTR), self.R(PTR), ("i", stride))
        p.both("patch %s" % p.text_of(self.R(CNT)), ["patch", CNT + 1])
        self.op2("SUB", self.R(CNT), self.R(CNT), ("i", 1), "+SET_Z", 1, "")
        p.both("jmp NOT_ZERO %d" % LOOP, ["jmp", "NOT_ZERO", p.ref(LOOP)])
        for i in range(6):
            p.kind[i] = "0"
        p.obs("r")
        p.j(["layout"])
        p.end()
        for a, cur, k, END in self.tail:
            if rng.random() < 0.3:
                self.nops(True)
            p.label(a)
            self.cur = cur
            self.tag(k)
            self.jmp(END)
        for a, cur, k in self.subs:
            if rng.random() < 0.3:
                self.nops(True)
            p.label(a)
            d = rng.choice([self.R(5), self.R(3), ("l", 40)])
            p.both("opd FAST_ENTER %s" % p.text_of(d), ["fenter", p.json_of(d)])
            self.cur = cur
            self.tag(k)
            p.both("ops FAST_RETURN %s" % p.text_of(d), ["fret", p.json_of(d)])
        p.label(start)
        for i, s in enumerate(p.kind):
            self.mov(self.R(i), ("i", i + 1)) if s == "0" else None
        for i, (cur, tag, END, idx) in enumerate(self.pads):
            d = ("m", None, None, 0, D + 0x2f00 + 8 * i)
            p.both("opaddr MOV_ADDR %s %d" % (p.text_of(d), END), ["opaddr", "MOV_ADDR", p.json_of(d), END + 1])
        self.jmp(LOOP)
        # pads: pieces of code generated elsewhere
        padlab = []
        p.head = []
        for i, (cur, tag, END, idx) in enumerate(self.pads):
            l = p.newlabel()
            padlab.append(l)
            p.head.append("Q %d %d %x %x %x" % (l, rng.randrange(3), cur[4], tag, D + 0x2f00 + 8 * i))
            p.j(["label"], "pad")
            p.labpos[l] = len(p.jins)
            p.j(["op1", "MOV", w, p.json_of(cur), ["i", word(tag, w)]], "pad")
            p.j(["ijmp", p.json_of(("m", None, None, 0, D + 0x2f00 + 8 * i))], "pad")
        # the modifications
        p.patches = []
        for n in range(1, self.n0 + 1):
            l = []
            for _ in range(rng.randrange(1, 9)):
                c = rng.random()
                if c < 0.4 and self.consts:
                    idx, name, reg = rng.choice(self.consts)
                    v = self.value(name, reg)
                    l.append(["c", idx, word(v, w)])
                    p.head.append("T %d c %d %s %s" % (n, idx, name, p.hx(v)))
                elif c < 0.75 and self.jumps:
                    idx, alts = rng.choice(self.jumps)
                    a = rng.choice(alts)
                    if isinstance(a, tuple):
                        a = padlab[a[1]]
                    l.append(["j", idx, p.ref(a)])
                    p.head.append("T %d j %d %d" % (n, idx, a))
                elif c < 0.9 and self.calls:
                    idx, k = rng.choice(self.calls), rng.randrange(4)
                    l.append(["j", idx, k])
                    p.head.append("T %d f %d %d" % (n, idx, k))
                elif self.tables:
                    ti, T, alts, m = rng.choice(self.tables)
                    tab = [rng.choice(alts) for _ in range(m)]
                    l.append(["b", ti + 1, [x + 1 for x in tab]])
                    p.head.append("T %d b %d %s" % (n, T, " ".join("%d" % x for x in tab)))
            p.patches.append(l)
        return p


def c10_random(w, n, seed):
    out = []
    for k in range(n):
        rng = random.Random("c10-%d-%d-%d" % (w, seed, k))
        out.append(Patch("c10-%d-%d-%d" % (w, seed, k), w, rng).build())
    return out
