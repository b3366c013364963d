"""Control flow programs (C05): random control flow graphs, jump distances."""
import random
from lirgen import *

DRIVER = "lirrun.c"
CMPS_ = CMPS


class Soup:
    """random blocks connected by every kind of jump; the path taken is recorded in memory"""
    tail = 0.15

    def __init__(self, pid, w, rng, addr=True):
        self.rng, self.w = rng, w
        self.p = p = newp(pid, w, rng)
        p.wantaddr = True
        c = [3, 4, 5, 9, 10, 11]
        rng.shuffle(c)
        self.acc, self.r32 = c[0], c[1]
        self.tok = c[2:5]
        self.B, self.CNT, self.T0, self.T1, self.T2, self.S2 = 6, 7, 0, 1, 2, 8
        self.n0 = rng.randrange(6, 24)
        p.init[self.B] = D
        p.init[self.CNT] = self.n0
        v = sx(rng.getrandbits(32), 32)
        p.both("op1 MOV32 %s #%s" % (p.reg(self.r32), p.hx(v)), ["op1", "MOV32", 4, ["r", self.r32 + 1], ["i", word(v, w)]])
        p.kind[self.r32] = "w" if w == 4 else "4"
        self.ops = 0

    def R(self, i):
        return ("r", i)

    def op2(self, n, d, a, b, flags="", z=0, t=""):
        p = self.p
        p.both("op2 %s%s %s %s %s" % (n, flags, p.text_of(d), p.text_of(a), p.text_of(b)),
               ["op2", n, p.w, z, t, p.json_of(d), p.json_of(a), p.json_of(b)])

    def op2u(self, n, a, b, flags, z, t):
        p = self.p
        p.both("op2u %s%s %s %s" % (n, flags, p.text_of(a), p.text_of(b)), ["op2u", n, p.w, z, t, p.json_of(a), p.json_of(b)])

    def mov(self, d, s):
        p = self.p
        p.both("op1 MOV %s %s" % (p.text_of(d), p.text_of(s)), ["op1", "MOV", p.w, p.json_of(d), p.json_of(s)])

    def jmp(self, c, L, rw=None):
        p = self.p
        rw = self.rng.random() < 0.2 if rw is None else rw
        p.both("jmp %s%s %d" % (c, "+REWRITABLE_JUMP" if rw else "", L), ["jmp", c, p.ref(L)])

    def nops(self, k=None):
        rng = self.rng
        k = k or rng.choice([1, 2, 3, 5, 8, 20, 28, 31, 40, 60, 62, 64, 100, 124, 126, 128, 130, 250])
        self.p.both("nops %d" % k, ["op0", "NOP", self.w])

    def dest(self):
        """somewhere to keep an address"""
        rng = self.rng
        c = rng.random()
        if c < 0.5:
            return self.R(rng.choice([self.T0, self.T1, self.T2, self.S2] + ([c_ for c_ in (3, 4, 5, 9, 10, 11) if c_ not in (self.acc, self.r32) and c_ not in self.tok])))
        if c < 0.7:
            return ("m", self.B, None, 0, 0x2000 + 8 * rng.randrange(64))
        if c < 0.8:
            return ("m", None, None, 0, D + 0x2000 + 8 * rng.randrange(64))
        return ("l", 32 + 8 * rng.randrange((self.p.local - 32) // 8))

    def blockbody(self, k):
        rng = self.rng
        a = self.R(self.acc)
        n, v = rng.choice([("ADD", rng.getrandbits(20)), ("XOR", rng.getrandbits(16)), ("ADD", rng.getrandbits(8 * self.w)), ("SUB", rng.getrandbits(12))])
        self.op2(n, a, a, ("i", v + k))
        self.op2("ROTL", a, a, ("i", rng.choice([1, 3, 5, 7, 13])))
        # history
        self.mov(("m", self.B, self.CNT, self.w.bit_length() - 1, 0), a)

    def leave(self, EXIT):
        """count down, leave at zero"""
        rng, p = self.rng, self.p
        c = self.R(self.CNT)
        q = rng.random()
        if q < 0.4:
            self.op2("SUB", c, c, ("i", 1), "+SET_Z", 1, "")
            self.jmp("ZERO", EXIT)
        elif q < 0.7:
            p.both("op2cmpz SUB+IFZ %s %s #1 %d" % (p.text_of(c), p.text_of(c), EXIT),
                   ["op2cmpz", "SUB", p.w, "", 1, p.json_of(c), p.json_of(c), ["i", word(1, p.w)], p.ref(EXIT)])
        else:
            self.op2("SUB", c, c, ("i", 1))
            p.both("cmp EQUAL %s #0 %d" % (p.text_of(c), EXIT), ["cmp", "EQUAL", p.w, p.json_of(c), ["i", word(0, p.w)], p.ref(EXIT)])

    def term(self, labels, tables):
        """ends a block by going to some of the labels"""
        rng, p, w = self.rng, self.p, self.w
        L = lambda: rng.choice(labels)
        a = self.R(self.acc)
        k = rng.choice(["jmp", "cond", "cond", "cond", "cmp", "cmp", "fcmp", "cmpz", "ijmp", "ijmp", "table", "table", "cmp32"])
        if k == "cond":
            n = rng.choice(["SUB", "SUB", "ADD", "AND"])
            b = ("i", rng.choice([0, 1, -1, rng.getrandbits(8 * w), rng.getrandbits(11), 1 << (8 * w - 1)]))
            if n == "AND":
                b = ("i", 1 << rng.randrange(8 * w - 1) if rng.random() < 0.7 else rng.getrandbits(5))
                z, t = 1, ""
            else:
                t = rng.choice(FLAGTYPES[n] + [""])
                z = 1 if t == "" or (rng.random() < 0.5 and t not in ("CARRY",)) else 0
            fl = ("+SET_Z" if z else "") + ("+F." + t if t else "")
            if t == "OVERFLOW" and z and rng.random() < 0.5:
                z, fl = 0, "+F.OVERFLOW"
            self.op2u(n, a, b, fl, z, t)
            cs = (CONDS["Z"] if z else []) + (CONDS[t] if t else [])
            for _ in range(1 if t == "CARRY" else rng.randrange(1, 4)):
                self.jmp(rng.choice(cs), L())
        elif k in ("cmp", "cmp32"):
            for _ in range(rng.randrange(1, 3)):
                c = rng.choice(CMPS_)
                ww, x, s32 = (w, a, "") if k == "cmp" else (4, self.R(self.r32), "+32")
                if k == "cmp32":
                    p.both("op2 ADD32 %s %s #%s" % (p.text_of(x), p.text_of(x), p.hx(77)), ["op2", "ADD", 4, 0, "", p.json_of(x), p.json_of(x), ["i", word(77, w)]])
                v = rng.choice([0, 0, 1, -1, rng.getrandbits(8 * ww), rng.getrandbits(11), 255])
                if ww == 4:
                    v = sx(v, 32)
                y = ("i", v)
                if rng.random() < 0.3:
                    y = ("m", self.B, None, 0, 8 * rng.randrange(64)) if k == "cmp" else ("i", v)
                if rng.random() < 0.3:
                    x, y = y, x
                rw = "+REWRITABLE_JUMP" if rng.random() < 0.2 else ""
                l = L()
                p.both("cmp %s%s%s %s %s %d" % (c, s32, rw, p.text_of(x), p.text_of(y), l), ["cmp", c, ww, p.json_of(x), p.json_of(y), p.ref(l)])
        elif k == "fcmp":
            is32 = rng.random() < 0.5
            c = rng.choice(["F_EQUAL", "F_NOT_EQUAL", "F_LESS", "F_GREATER_EQUAL", "F_GREATER", "F_LESS_EQUAL", "UNORDERED", "ORDERED",
                            "ORDERED_EQUAL", "UNORDERED_OR_NOT_EQUAL", "ORDERED_LESS", "UNORDERED_OR_GREATER_EQUAL"])
            v = [0x3f800000, 0xbf800000, 0, 0x7fc00000, 0x40000000] if is32 else [0x3ff0000000000000, 0xbff0000000000000, 0, 0x7ff8000000000000, 0x4000000000000000]
            for f in (0, 1):
                x = rng.choice([y for y in v if y not in (0x7fc00000, 0x7ff8000000000000)] if c[:2] == "F_" else v)
                p.both("fset%d f%d %x" % (32 if is32 else 64, f, x), ["fset", f + 1, word(x, 4 if is32 else 8)])
            l = L()
            rw = "+REWRITABLE_JUMP" if rng.random() < 0.2 else ""
            p.both("fcmp %s%s%s f0 f1 %d" % (c, "+32" if is32 else "", rw, l), ["fcmp", c, 4 if is32 else 8, ["f", 1], ["f", 2], p.ref(l)])
            p.fkind[0] = p.fkind[1] = "0"
        elif k == "cmpz":
            d = self.R(self.T2)
            iz = rng.random() < 0.5
            l = L()
            m = rng.choice([1 << rng.randrange(8 * w - 1), 7, 0xff, 0x10001])
            p.both("op2cmpz AND%s %s %s #%s %d" % ("+IFZ" if iz else rng.choice(["", "+IFNZ"]), p.text_of(d), p.text_of(a), p.hx(m), l),
                   ["op2cmpz", "AND", w, "", 1 if iz else 0, p.json_of(d), p.json_of(a), ["i", word(m, w)], p.ref(l)])
        elif k == "ijmp":
            d = self.dest()
            if rng.random() < 0.5:
                l = L()
                self.opaddr("MOV_ADDR", d, l)
            else:       # address chosen at run time
                self.op2u("AND", a, ("i", 1 << rng.randrange(20)), "+SET_Z", 1, "")
                self.opaddr("MOV_ADDR", self.R(self.T0), L())
                self.opaddr("MOV_ADDR", self.R(self.T1), L())
                p.both("sel ZERO r%d r%d r%d" % (self.T2, self.T0, self.T1), ["sel", "ZERO", w, self.T2 + 1, ["r", self.T0 + 1], self.T1 + 1])
                d = self.R(self.T2)
            p.both("ijmp JUMP %s" % p.text_of(d), ["ijmp", p.json_of(d)])
            return
        elif k == "table":
            n = rng.choice([1, 2, 4, 8])
            T = p.newlabel()
            self.slots[T] = rng.choice([0, 0, 1, 2])
            for _ in range(self.slots[T]):
                p.newlabel()
            tl = [L() for _ in range(n)]
            tables.append((T, tl))
            t, b = self.R(self.T1), self.R(self.T0)
            sh = w.bit_length() - 1
            self.op2("AND", t, a, ("i", n - 1))
            form = rng.randrange(4)
            if form == 3:
                self.op2("SHL", t, t, ("i", sh))
                self.opaddr("ADD_ABS_ADDR", t, T)
                p.both("ijmp JUMP Mr%d:0" % self.T1, ["ijmp", p.json_of(("m", self.T1, None, 0, 0))])
                return
            self.opaddr("MOV_ABS_ADDR", b, T)
            m = ("m", self.T0, self.T1, sh, 0)
            if form == 0:
                p.both("ijmp JUMP %s" % p.text_of(m), ["ijmp", p.json_of(m)])
                return
            d = self.R(self.T1) if form == 1 else self.dest()
            if d[0] == "r":
                self.mov(d, m)
            else:
                self.mov(self.R(self.T2), m)
                self.mov(d, self.R(self.T2))
            p.both("ijmp JUMP %s" % p.text_of(d), ["ijmp", p.json_of(d)])
            return
        self.jmp("JUMP", L())

    def opaddr(self, n, d, l):
        p = self.p
        p.both("opaddr %s %s %d" % (n, p.text_of(d), l), ["opaddr", n, p.json_of(d), l + 1])

    def call(self, subs):
        rng, p = self.rng, self.p
        l = rng.choice(subs)
        if rng.random() < 0.6:
            p.both("fcall %d -" % l if rng.random() < 0.8 else "fcall %d REWRITABLE_JUMP" % l, ["fcall", ["t", p.ref(l)]])
        else:
            d = self.dest()
            self.opaddr("MOV_ADDR", d, l)
            p.both("ijmp FAST_CALL %s" % p.text_of(d), ["fcall", p.json_of(d)])

    def emitlabel(self, l):
        rng = self.rng
        q = rng.random()
        if q < 0.15:
            self.p.alabel([l], rng.randrange(5))
        else:
            self.p.label(l)
        if q > 0.9:                           # another label here
            self.extra.append(self.p.newlabel())
            self.p.label(self.extra[-1])

    def emit_tables(self, tables, force=False):
        rng, p, w = self.rng, self.p, self.w
        while tables and (force or rng.random() < 0.6):
            T, tl = tables.pop(rng.randrange(len(tables)))
            ls, sizes = [T], [w * len(tl)]
            for k in range(self.slots.pop(T)):
                ls.append(T + 1 + k)
                sizes.append(rng.choice([w, 16, 24, 1, 7, 13, 30]))
            p.alabel(ls, rng.choice([3, 4]) if w == 8 else rng.choice([2, 3, 4]), sizes)
            self.fills.append((T, tl))

    def build(self):
        rng, p, w = self.rng, self.p, self.w
        self.fills, self.extra, self.slots = [], [], {}
        EXIT = p.newlabel()
        nb = rng.randrange(3, 14)
        blocks = [("b", p.newlabel()) for _ in range(nb)]
        subs = [[p.newlabel() for _ in range(rng.randrange(1, 3))] for _ in range(rng.randrange(0, 4))]   # by level
        labels = [l for _, l in blocks]
        layout = list(blocks) + [("s%d" % k, l) for k, ss in enumerate(subs) for l in ss]
        TAIL = p.newlabel() if rng.random() < self.tail else None
        if TAIL is not None:
            labels.append(TAIL)
        rng.shuffle(layout)
        xat = rng.randrange(len(layout) + 1)
        layout.insert(xat, ("x", EXIT))
        tables = []
        self.jmp("JUMP", rng.choice(labels))
        tokdst = {}
        for k, ss in enumerate(subs):
            for l in ss:
                c = rng.random()
                tokdst[l] = self.R(self.tok[k]) if c < 0.6 else ("l", 8 * (k + 1)) if c < 0.8 else ("m", self.B, None, 0, 0x2400 + 8 * k)
        self.leavebuf = []
        inner = {}
        for kind, l in layout:
            if rng.random() < 0.2:
                self.nops()
            self.emitlabel(l)
            if kind == "x":
                self.finish_at(EXIT)
            elif kind == "b":
                self.blockbody(l)
                self.leave(EXIT)
                if subs and rng.random() < 0.5:
                    self.call([x for ss in subs for x in ss])
                if rng.random() < 0.1:
                    self.nops()
                self.term(labels, tables)
            else:
                k = int(kind[1:])
                d = tokdst[l]
                p.both("opd FAST_ENTER %s" % p.text_of(d), ["fenter", p.json_of(d)])
                if d[0] == "r":
                    p.kind[d[1]] = "0"
                self.blockbody(l)
                if rng.random() < 0.5:
                    self.leave(EXIT)
                deeper = [x for ss in subs[k + 1:] for x in ss]
                if deeper and rng.random() < 0.6:
                    self.call(deeper)
                if rng.random() < 0.3:       # a branch inside
                    n = p.newlabel()
                    a = self.R(self.acc)
                    self.op2u("AND", a, ("i", 2), "+SET_Z", 1, "")
                    self.jmp("ZERO", n)
                    self.op2("XOR", a, a, ("i", 0x333))
                    p.label(n)
                if rng.random() < 0.2:
                    p.both("ops SKIP_FRAMES_BEFORE_FAST_RETURN %s" % p.text_of(d), ["op0", "NOP", w])
                p.both("ops FAST_RETURN %s" % p.text_of(d), ["fret", p.json_of(d)])
            self.emit_tables(tables)
        self.emit_tables(tables, True)
        if TAIL is not None:                  # an address load at the very end, followed by the shortest instructions
            d = self.R(rng.choice([self.T0, self.T1, self.T2]))
            p.label(TAIL)
            if rng.random() < 0.3:            # (not an address to jump to: the Thumb bit is missing)
                self.opaddr("MOV_ABS_ADDR", d, rng.choice(labels[:-1]))
            self.opaddr("MOV_ADDR", d, rng.choice(labels[:-1]))
            if rng.random() < 0.8:
                p.both("ijmp JUMP %s" % p.text_of(d), ["ijmp", p.json_of(d)])
            else:
                self.jmp("JUMP", rng.choice(labels[:-1]))
        # trailing code nobody reaches
        elif rng.random() < 0.3:
            self.nops(3)
        for T, tl in self.fills:
            p.fill(T, tl)
        p.masks[0] = ("r", "".join({"w": "8", "4": "4", "0": "0"}[x] for x in p.kind))
        return p

    def finish_at(self, EXIT):
        p = self.p
        p.obs("r")
        p.j(["layout"])
        p.end()


def newp(pid, w, rng):
    p = Prog(pid, w, 6, 6, 2, 0, local=64)
    for i in range(p.nr):
        p.init[i] = rng.getrandbits(8 * w)
    p.finit = [0x3ff0000000000000, 0x4000000000000000]
    return p


def c05_random(w, n, seed):
    out = []
    for k in range(n):
        rng = random.Random("c05-%d-%d-%d" % (w, seed, k))
        s = Soup("c05-%d-%d-%d" % (w, seed, k), w, rng)
        out.append(s.build())
    return out


class Places(Soup):
    """with constants between the blocks"""
    tail = 0.5
    def blockbody(self, k):
        rng, p, w = self.rng, self.p, self.w
        Soup.blockbody(self, k)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 5])):
            n = rng.choice(["MOV", "MOV", "MOV_U8", "MOV_S32", "MOV32", "MOV32_U8"] if w == 8 else ["MOV", "MOV", "MOV_U8", "MOV32"])
            b, ww = (n.replace("32_", "_") if n != "MOV32" else "MOV32"), 4 if n.startswith("MOV32") else w
            v = rng.choice([0, 1, -1, 0x7fff, rng.getrandbits(16), rng.getrandbits(32), rng.getrandbits(64), 1 << 63, 0x80000000])
            d = rng.choice([self.R(self.T0), self.R(self.T1), self.R(self.T2), ("m", self.B, None, 0, 0x2800 + 8 * rng.randrange(20)), ("l", 32)])
            if "U8" in n:
                v = rng.randrange(-256, 256) if d[0] == "r" else rng.randrange(256)
            if n in ("MOV32", "MOV_S32"):
                v = sx(v & 0xffffffff, 32)
            if d[0] == "r" and ww < w:
                d = self.R(self.r32)
            self.consts = getattr(self, "consts", 0) + 1
            if self.consts > 200:
                return
            p.both("const %s %s %x" % (n, p.text_of(d), v & ((1 << (8 * w)) - 1)), ["const", b, ww, p.json_of(d), ["w", word(v, w)][1]])


def c17_places(w, n, seed):
    out = []
    for k in range(n):
        rng = random.Random("c17-%d-%d-%d" % (w, seed, k))
        out.append(Places("c17-%d-%d-%d" % (w, seed, k), w, rng).build())
    return out


# ------------------------------------------------------------- distances
NOP = {"x86_64": 1, "x86_32": 1, "armthumb2": 2, "s390x": 2}
LIMITS = {"x86": [128], "thumb2": [256, 2048], "arm64": [], "ppc": [32768], "riscv": [4096], "mips": [131072], "loongarch": [131072], "s390x": [65536], "arm": [4096]}
FAR = {"thumb2": [1 << 20], "arm64": [1 << 20], "riscv": [1 << 20], "ppc": [1 << 25], "loongarch": [1 << 22], "thumb": [1 << 24]}
KINDS = ["jmp", "jz", "less", "sless", "ovf", "carry", "cmpi", "cmpr", "cmp0", "fcmp", "cmpz", "fcall", "addr", "absaddr", "rw", "rwc"]


def family(a):
    if "t2" in a:
        return "thumb2"
    for k in ("x86", "thumb2", "arm64", "aarch64", "ppc", "riscv", "mips", "loongarch", "s390x", "arm"):
        if k in a:
            return {"aarch64": "arm64"}.get(k, k)


def distance(pid, w, kind, n, seed):
    """one jump over n nops and one back"""
    rng = random.Random("dist-%s-%d" % (kind, seed))
    s = Soup(pid, w, rng)
    p = s.p
    p.lines, p.jins, p.src = p.lines[:2], [], []        # no 32 bit register here
    p.kind[s.r32] = "w"
    a = s.R(s.acc)
    p.init[s.acc] = 5
    p.wantaddr = kind in ("addr", "absaddr")
    F, B, DONE, START = (p.newlabel() for _ in range(4))

    def add(k):
        s.op2("ADD", a, a, ("i", k))

    def go(L, taken=True):
        if kind in ("jmp", "rw"):
            if taken:
                s.jmp("JUMP", L, kind == "rw")
        elif kind in ("jz", "rwc"):
            s.op2u("AND", s.R(s.B), ("i", D if not taken else 2), "+SET_Z", 1, "")
            s.jmp("ZERO", L, kind == "rwc")
        elif kind in ("less", "sless", "ovf", "carry"):
            t = {"less": "LESS", "sless": "SIG_LESS", "ovf": "OVERFLOW", "carry": "CARRY"}[kind]
            if kind == "ovf":
                s.op2u("ADD", s.R(s.B), ("i", 1), "+F.OVERFLOW", 0, t)
                s.jmp("NOT_OVERFLOW" if taken else "OVERFLOW", L, False)
            elif kind == "carry":
                s.op2u("SUB", s.R(s.B), ("i", D), "+F.CARRY", 0, t)
                s.jmp("NOT_CARRY" if taken else "CARRY", L, False)
            else:
                s.op2u("SUB", s.R(s.B), ("i", D + (1 if taken else 0)), "+F." + t, 0, t)
                s.jmp(t, L, False)
        elif kind in ("cmpi", "cmpr", "cmp0"):
            x, y = s.R(s.B), {"cmpi": ("i", 5), "cmpr": s.R(s.CNT), "cmp0": ("i", 0)}[kind]
            c = {"cmpi": ("GREATER", "LESS"), "cmpr": ("SIG_GREATER", "EQUAL"), "cmp0": ("NOT_EQUAL", "SIG_LESS")}[kind][0 if taken else 1]
            p.both("cmp %s %s %s %d" % (c, p.text_of(x), p.text_of(y), L), ["cmp", c, p.w, p.json_of(x), p.json_of(y), p.ref(L)])
        elif kind == "fcmp":
            c = "F_LESS" if taken else "F_EQUAL"
            p.both("fcmp %s f0 f1 %d" % (c, L), ["fcmp", c, 8, ["f", 1], ["f", 2], p.ref(L)])
        elif kind == "cmpz":
            d = s.R(s.T2)
            p.both("op2cmpz AND%s %s %s #%s %d" % ("" if taken else "+IFZ", p.text_of(d), p.text_of(s.R(s.B)), p.hx(D), L),
                   ["op2cmpz", "AND", w, "", 0 if taken else 1, p.json_of(d), p.json_of(s.R(s.B)), ["i", word(D, w)], p.ref(L)])
        elif kind == "fcall":
            if taken:
                p.both("fcall %d -" % L, ["fcall", ["t", p.ref(L)]])
        else:
            d = s.R(s.T1)
            if kind == "addr" or L == B:
                s.opaddr("MOV_ADDR", d, L)
            else:
                s.opaddr("MOV_ADDR", d, L)
                s.opaddr("MOV_ABS_ADDR", s.R(s.T2), L)
            if taken:
                p.both("ijmp JUMP %s" % p.text_of(d), ["ijmp", p.json_of(d)])
    s.jmp("JUMP", START, False)
    p.label(B)
    if kind == "fcall":
        p.both("opd FAST_ENTER r5", ["fenter", ["r", 6]])
    add(100)
    if kind == "fcall":
        p.both("ops FAST_RETURN r5", ["fret", ["r", 6]])
    else:
        s.jmp("JUMP", DONE, False)
    p.label(START)
    go(F, False)
    add(1000)
    go(F)
    add(10)
    s.jmp("JUMP", DONE, False)
    p.both("nops %d" % n, ["op0", "NOP", w])
    p.label(F)
    if kind == "fcall":
        p.both("opd FAST_ENTER s5", ["fenter", ["r", 12]])
    add(3)
    go(B, False)
    add(20)
    go(B)
    add(50)
    if kind == "fcall":
        p.both("ops FAST_RETURN s5", ["fret", ["r", 12]])
        p.kind[5] = p.kind[11] = "0"
    p.label(DONE)
    p.obs("r")
    p.j(["layout"])
    p.end()
    if not p.wantaddr:
        p.jins = [j for j in p.jins if j != ["layout"]]
        p.src.pop()
        for l in p.labpos:
            pass
    return p


def c05_distances(arch, w, seed, far=False, span=10):
    out = []
    f = family(arch)
    nop = 1 if f == "x86" else 2 if f in ("thumb2", "s390x") else 4
    lim = FAR.get(f, []) if far else LIMITS[f]
    for b in lim:
        for kind in KINDS:
            c = b // nop
            lo = -span * (4 if nop == 1 else 2 if nop == 2 else 1)
            for n in range(c + lo - 4, c + 4):
                out.append(distance("c05d-%s-%s-%d" % (arch, kind, n), w, kind, n, seed))
    return out
