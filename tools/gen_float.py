"""Floating point programs (C07)."""
import random, struct
from lirgen import *

DRIVER = "lirrun.c"
FD = D                      # data area
FCONDS = ["F_EQUAL", "F_NOT_EQUAL", "F_LESS", "F_GREATER_EQUAL", "F_GREATER", "F_LESS_EQUAL", "UNORDERED", "ORDERED", "ORDERED_EQUAL",
          "UNORDERED_OR_NOT_EQUAL", "ORDERED_LESS", "UNORDERED_OR_GREATER_EQUAL", "ORDERED_GREATER", "UNORDERED_OR_LESS_EQUAL",
          "UNORDERED_OR_EQUAL", "ORDERED_NOT_EQUAL", "UNORDERED_OR_LESS", "ORDERED_GREATER_EQUAL", "UNORDERED_OR_GREATER", "ORDERED_LESS_EQUAL"]
FPAIR = {FCONDS[i]: FCONDS[i ^ 1] for i in range(len(FCONDS))}
FFLAG = {}
for _i in range(0, len(FCONDS), 2):
    FFLAG[FCONDS[_i]] = FFLAG[FCONDS[_i + 1]] = FCONDS[_i]


def geo(w):
    return (8, 23) if w == 4 else (11, 52)


def mk(w, s, e, f):
    eb, fb = geo(w)
    return (s << (eb + fb)) | ((e & ((1 << eb) - 1)) << fb) | (f & ((1 << fb) - 1))


def isnan(v, w):
    eb, fb = geo(w)
    return (v >> fb) & ((1 << eb) - 1) == (1 << eb) - 1 and v & ((1 << fb) - 1) != 0


def fbits(x, w):
    return struct.unpack("<I" if w == 4 else "<Q", struct.pack("<f" if w == 4 else "<d", x))[0]


def fpval(v, w):
    return struct.unpack("<f" if w == 4 else "<d", struct.pack("<I" if w == 4 else "<Q", v))[0]


def rf(rng, w, nan=True):
    eb, fb = geo(w)
    emax = (1 << eb) - 1
    bias = emax >> 1
    s = rng.randrange(2)
    c = rng.random()
    if c < 0.10:
        v = mk(w, s, 0, 0)
    elif c < 0.17:
        v = mk(w, s, emax, 0)
    elif c < 0.25:
        v = mk(w, s, emax, rng.choice([1 << (fb - 1), 1, (1 << fb) - 1, (1 << (fb - 1)) | rng.getrandbits(fb - 1), rng.getrandbits(fb) or 1]))
    elif c < 0.33:
        v = mk(w, s, 0, rng.choice([1, 2, (1 << fb) - 1, 1 << (fb - 1), rng.getrandbits(fb)]))
    elif c < 0.38:
        v = mk(w, s, rng.choice([1, 2, emax - 1, emax - 2]), rng.choice([0, 1, (1 << fb) - 1, rng.getrandbits(fb)]))
    elif c < 0.50:
        v = mk(w, s, bias + rng.randrange(-4, 5), rng.getrandbits(4) << (fb - 4))     # short immediates
    elif c < 0.62:
        v = fbits(float(rng.randrange(-20, 20)), w)
    elif c < 0.75:
        v = mk(w, s, bias + rng.randrange(-8, 70), rng.getrandbits(fb))
    elif c < 0.85:
        v = mk(w, s, bias + rng.randrange(0, 12), rng.choice([1 << rng.randrange(fb), (1 << fb) - (1 << rng.randrange(fb))]))
    else:
        v = rng.getrandbits(8 * w)
    if not nan and isnan(v, w):
        return rf(rng, w, False)
    return v


def rfpair(rng, w, nan=True):
    eb, fb = geo(w)
    a = rf(rng, w, nan)
    c = rng.random()
    if c < 0.4:
        return a, rf(rng, w, nan)
    if c < 0.5:
        return a, a
    if c < 0.56:
        return a, a ^ (1 << (8 * w - 1))
    if c < 0.64:
        b = (a + rng.choice([1, -1, 2])) & ((1 << 8 * w) - 1)
    else:
        e = (a >> fb) & ((1 << eb) - 1)
        d = rng.choice([0, 1, -1, 2, fb - 1, fb, fb + 1, fb + 2, -fb, -fb - 1, rng.randrange(-60, 60)])
        b = mk(w, rng.randrange(2), max(0, min((1 << eb) - 2, e + d)), rng.choice([0, 1, (1 << fb) - 1, rng.getrandbits(fb), 1 << (fb - 1)]))
    if not nan and isnan(b, w):
        b = a
    return a, b


def halfway(rng):
    """binary64 near a rounding boundary of binary32, in every range"""
    f = rng.getrandbits(23)
    tail = rng.choice([0, 1 << 28, (1 << 28) - 1, (1 << 28) + 1, 1, (1 << 29) - 1, rng.getrandbits(29)])
    e = rng.choice([1023 + rng.randrange(-20, 20), 1023 - 126 - rng.randrange(0, 26), 1023 + 127, 1023 + 128, 1023 - 150, 1023 - 149, rng.randrange(2047)])
    if rng.random() < 0.2:
        f = rng.choice([0, (1 << 23) - 1])
    return mk(8, rng.randrange(2), e, (f << 29) | tail)


def rint_src(rng, bits):
    """integers whose conversion needs rounding"""
    m = (1 << bits) - 1
    c = rng.random()
    if c < 0.35:
        return rval(rng, bits)
    for fb in (24, 53) if rng.random() < 0.5 else (53, 24):
        if bits > fb:
            k = rng.randrange(fb + 1, bits + 1)
            top = (1 << (fb - 1)) | rng.getrandbits(fb - 1)
            if rng.random() < 0.3:
                top = (1 << fb) - 1
            low = k - fb
            t = rng.choice([0, 1 << (low - 1), (1 << (low - 1)) - 1, (1 << (low - 1)) + 1, 1, (1 << low) - 1])
            v = ((top << low) + t) & m
            return -v & m if rng.random() < 0.4 else v
    return rng.getrandbits(bits)


def rtoint(rng, fw, bits):
    """float whose truncation fits in a signed integer"""
    lim = 1 << (bits - 1)
    for _ in range(50):
        c = rng.random()
        if c < 0.25:
            x = rng.choice([0.0, -0.0, 0.5, -0.5, 0.99, -0.99, 1.0, -1.0, 1.5, -1.5, 2.5, -2.999, 1e-300, -1e-300, 1e-40])
        elif c < 0.45:
            x = float(sx(rng.getrandbits(bits), bits) >> rng.randrange(bits)) + rng.choice([0, 0.25, 0.5, 0.75, -0.5])
        elif c < 0.65:
            x = rng.choice([-float(lim), -float(lim) + 1, -float(lim) - 0.5, float(lim) - 1, float(lim) - 0.5, float(lim) - 1024, float(lim) - 128, float(lim) / 2, float(lim) * 0.99999])
        else:
            x = fpval(rf(rng, fw, False), fw)
        try:
            v = fbits(x, fw)
        except OverflowError:
            continue
        y = fpval(v, fw)
        if y == y and abs(y) != float("inf") and -lim <= int(y) < lim:
            return v
    return 0


class FloatGen(Gen):
    def __init__(self, p, rng, pats):
        super().__init__(p, rng, pats)
        self.fval = {}                 # register -> known value
        self.slot = 0

    def fname(self, n, w):
        return n + ("_F64" if w == 8 else "_F32")

    def freg(self, avoid=()):
        return self.rng.choice([i for i in range(self.p.nf) if i not in avoid])

    def fset(self, f, v, w):
        p = self.p
        fb = geo(w)[1]
        if isnan(v, w) and not (v >> (fb - 1)) & 1:      # passing a signalling NaN as a C argument may change it
            v = self.raw(f, v, w)
            return
        p.both("fset%d %s %x" % (8 * w, p.freg(f), v), ["fset", f + 1, word(v, w)])
        p.fkind[f] = str(w)
        self.fval[f] = v

    def raw(self, f, v, w):
        """the bits v into a register without a C floating point argument"""
        p, rng = self.p, self.rng
        c = [i for i in range(p.nr) if i not in self.pins and i not in self.unobs]
        if len(c) < 2:
            self.sync()
            c = [i for i in range(p.nr) if i not in self.pins]
        r1, r2 = rng.sample(c, 2)
        if w == 8 and p.w == 4:
            self.movi(r1, v >> 32)
            self.movi(r2, v & 0xffffffff)
            p.both("fcopy COPY_TO_F64 %s P%s:%s" % (p.freg(f), p.reg(r1), p.reg(r2)), ["fcopy", 1, 8, f + 1, ["p", r1 + 1, r2 + 1]])
        else:
            self.movi(r1, sx(v, 32) if w < p.w else v, w)
            p.both("fcopy %s %s %s" % ("COPY_TO_F64" if w == 8 else "COPY32_TO_F32", p.freg(f), p.reg(r1)), ["fcopy", 1, w, f + 1, ["r", r1 + 1]])
        p.fkind[f] = str(w)
        self.fval[f] = v

    def newslot(self, size=8):
        self.slot += 1
        return D + 8 * self.slot

    def place_mem(self, v, w):
        """the bits v in memory"""
        p, rng = self.p, self.rng
        a = self.newslot()
        be = getattr(p, "be", 0)
        def st(addr, x, n):
            nm = "MOV32" if n == 4 else "MOV"
            o = ("m", None, None, 0, addr)
            p.both("op1 %s %s %s" % (nm, p.text_of(o), p.text_of(("i", x))), ["op1", nm, n, p.json_of(o), p.json_of(("i", x))])
        if w == 8 and p.w == 8:
            st(a, v, 8)
        elif w == 8:
            # two halves; the byte order of the target does not matter for a symmetric placement: use a register and float moves
            f = self.freg()
            self.fset(f, v, 8)
            o = ("m", None, None, 0, a)
            p.both("fop1 MOV_F64 %s %s" % (p.text_of(o), p.freg(f)), ["fop1", "MOV", 8, p.json_of(o), ["f", f + 1]])
        else:
            st(a, sx(v, 32) if p.w == 8 else v, 4)
        c = rng.random()
        if c < 0.6:
            b = rng.choice([r for r in self.pins])
            return ("m", b, None, 0, a - D)
        return ("m", None, None, 0, a)

    def place(self, v, w, form=None, avoid=()):
        form = form or self.rng.choice("fffm")
        if form == "m":
            return self.place_mem(v, w)
        f = self.freg(avoid)
        self.fset(f, v, w)
        return ("f", f)

    def two(self, a, b, w):
        o2 = self.place(b, w, self.rng.choice("fffm"))
        o1 = self.place(a, w, self.rng.choice("fffm"), avoid=[o2[1]] if o2[0] == "f" else [])
        if o2[0] == "f" and o1[0] == "m":      # the placement may have used the register
            if self.fval.get(o2[1]) != b or self.p.fkind[o2[1]] != str(w):
                self.fset(o2[1], b, w)
        return o1, o2

    def fdst(self, w, srcs=(), mem=True):
        rng, p = self.rng, self.p
        if mem and rng.random() < 0.2:
            self.slot += 1
            if rng.random() < 0.5 and p.local:
                return ("l", 8 * rng.randrange(p.local // 8))
            return ("m", rng.choice(list(self.pins)), None, 0, 8 * self.slot)
        c = [s[1] for s in srcs if s[0] == "f"]
        f = rng.choice(c) if c and rng.random() < 0.4 else self.freg()
        return ("f", f)

    def wrote(self, d, w):
        if d[0] == "f":
            self.p.fkind[d[1]] = str(w)
            self.fval.pop(d[1], None)

    def arith(self, w):
        rng, p = self.rng, self.p
        n = rng.choice(["ADD", "SUB", "MUL", "DIV"])
        a, b = rfpair(rng, w)
        o1, o2 = self.two(a, b, w)
        have = [f for f in range(p.nf) if p.fkind[f] == str(w)]
        if have and rng.random() < 0.2:
            o1 = ("f", rng.choice(have))
        if o1[0] == "f" and rng.random() < 0.1:
            o2 = o1
        d = self.fdst(w, (o1, o2))
        p.both("fop2 %s %s %s %s" % (self.fname(n, w), p.text_of(d), p.text_of(o1), p.text_of(o2)), ["fop2", n, w, p.json_of(d), p.json_of(o1), p.json_of(o2)])
        self.wrote(d, w)

    def unary(self, w):
        rng, p = self.rng, self.p
        n = rng.choice(["MOV", "NEG", "ABS", "CONV_F", "COPYSIGN", "COPYSIGN"])
        if n == "CONV_F":
            v = rf(rng, 12 - w) if w == 8 or rng.random() < 0.3 else halfway(rng)
            o = self.place(v, 12 - w)
            d = self.fdst(w, (o,))
            p.both("fop1 %s %s %s" % ("CONV_F64_FROM_F32" if w == 8 else "CONV_F32_FROM_F64", p.text_of(d), p.text_of(o)), ["fop1", n, w, p.json_of(d), p.json_of(o)])
            self.wrote(d, w)
            return
        if n == "COPYSIGN":
            a, b = rfpair(rng, w)
            o1, o2 = self.two(a, b, w)
            if o1[0] == "f" and rng.random() < 0.1:
                o2 = o1
            d = self.fdst(w, (o1, o2), mem=False)
            p.both("fop2r %s %s %s %s" % (self.fname(n, w), p.text_of(d), p.text_of(o1), p.text_of(o2)), ["fop2r", n, w, d[1] + 1, p.json_of(o1), p.json_of(o2)])
            self.wrote(d, w)
            return
        o = self.place(rf(rng, w), w)
        d = self.fdst(w, (o,))
        p.both("fop1 %s %s %s" % (self.fname(n, w), p.text_of(d), p.text_of(o)), ["fop1", n, w, p.json_of(d), p.json_of(o)])
        self.wrote(d, w)

    def toint(self, fw):
        rng, p = self.rng, self.p
        iw = rng.choice([p.w, 4])
        nm = "CONV_%s_FROM_F%d" % ("S32" if iw == 4 and (p.w == 8 or rng.random() < 0.5) else "SW", 8 * fw)
        o = self.place(rtoint(rng, fw, 8 * iw), fw)
        if rng.random() < 0.25:
            self.slot += 1
            d = ("m", rng.choice(list(self.pins)), None, 0, 8 * self.slot)
        else:
            d = ("r", self.dstreg())
        p.both("fop1 %s %s %s" % (nm, p.text_of(d), p.text_of(o)), ["convi", fw, iw, p.json_of(d), p.json_of(o)])
        if d[0] == "r":
            self.setdst(d[1], iw)

    def fromint(self, fw):
        rng, p = self.rng, self.p
        iw = rng.choice([p.w, 4])
        sg = rng.randrange(2)
        t = (("S32" if sg else "U32") if iw == 4 and (p.w == 8 or rng.random() < 0.5) else ("SW" if sg else "UW"))
        v = rint_src(rng, 8 * iw)
        if iw < p.w:
            v = sx(v, 32)
        c = rng.random()
        if c < 0.3:
            o = ("i", v)
            if iw < p.w and rng.random() < 0.3:
                o = ("i", (v & 0xffffffff) | rng.getrandbits(32) << 32)
        elif c < 0.5:
            a = self.newslot()
            o = ("m", rng.choice(list(self.pins)), None, 0, a - D)
            nm = "MOV32" if iw < p.w else "MOV"
            p.both("op1 %s %s %s" % (nm, p.text_of(o), p.text_of(("i", v))), ["op1", nm, iw, p.json_of(o), p.json_of(("i", v))])
        else:
            r = self.dstreg()
            self.movi(r, v, iw)
            o = ("r", r)
        d = self.fdst(fw)
        p.both("fop1 CONV_F%d_FROM_%s %s %s" % (8 * fw, t, p.text_of(d), p.text_of(o)), ["convf", fw, iw, sg, p.json_of(d), p.json_of(o)])
        self.wrote(d, fw)

    def setk(self, w):
        rng = self.rng
        self.fset(self.freg(), rf(rng, w), w)

    def copy(self, w):
        rng, p = self.rng, self.p
        f = self.freg()
        if rng.random() < 0.5:      # to float
            v = rf(rng, w)
            if w == 8 and p.w == 4:
                r1, r2 = rng.sample([i for i in range(p.nr) if i not in self.pins], 2)
                self.movi(r1, v >> 32)
                if rng.random() < 0.6:
                    self.movi(r2, v & 0xffffffff)
                    p.both("fcopy COPY_TO_F64 %s P%s:%s" % (p.freg(f), p.reg(r1), p.reg(r2)),
                           ["fcopy", 1, 8, f + 1, ["p", r1 + 1, r2 + 1]])
                else:
                    self.fset(f, rf(rng, 8), 8)
                    p.both("fcopy COPY_TO_F64 %s %s" % (p.freg(f), p.reg(r1)), ["fcopy", 1, 8, f + 1, ["r", r1 + 1]])
                p.fkind[f] = "8"
            else:
                r = self.dstreg()
                self.movi(r, sx(v, 32) if w < p.w else v, w)
                p.both("fcopy %s %s %s" % ("COPY_TO_F64" if w == 8 else "COPY32_TO_F32", p.freg(f), p.reg(r)), ["fcopy", 1, w, f + 1, ["r", r + 1]])
                p.fkind[f] = str(w)
            self.fval.pop(f, None)
        else:
            self.fset(f, rf(rng, w), w)
            if w == 8 and p.w == 4:
                r1, r2 = rng.sample([i for i in range(p.nr) if i not in self.pins], 2)
                if r1 in self.unobs or r2 in self.unobs:
                    self.sync()
                if rng.random() < 0.6:
                    p.both("fcopy COPY_FROM_F64 %s P%s:%s" % (p.freg(f), p.reg(r1), p.reg(r2)), ["fcopy", 2, 8, f + 1, ["p", r1 + 1, r2 + 1]])
                    self.setdst(r2, 4)
                else:
                    p.both("fcopy COPY_FROM_F64 %s %s" % (p.freg(f), p.reg(r1)), ["fcopy", 2, 8, f + 1, ["r", r1 + 1]])
                self.setdst(r1, 4)
            else:
                r = self.dstreg()
                p.both("fcopy %s %s %s" % ("COPY_FROM_F64" if w == 8 else "COPY32_FROM_F32", p.freg(f), p.reg(r)), ["fcopy", 2, w, f + 1, ["r", r + 1]])
                self.setdst(r, w)

    def compare(self, w):
        rng, p = self.rng, self.p
        c = rng.choice(FCONDS)
        a, b = rfpair(rng, w, nan=c[:2] != "F_")
        if rng.random() < 0.15:
            a, b = (rng.randrange(2) << (8 * w - 1)), (rng.randrange(2) << (8 * w - 1))
        o1, o2 = self.two(a, b, w)
        s2 = "_F64" if w == 8 else "_F32"
        if rng.random() < 0.4:      # compare and jump
            L = p.newlabel()
            p.both("fcmp %s %s %s %d" % (c + ("+32" if w == 4 else "") + rng.choice(["", "", "+REWRITABLE_JUMP"]), p.text_of(o1), p.text_of(o2), L),
                   ["fcmp", c, w, p.json_of(o1), p.json_of(o2), p.ref(L)])
            self.skipmark(L)
            return
        p.both("fop1 CMP%s+F.%s %s %s" % (s2, FFLAG[c], p.text_of(o1), p.text_of(o2)), ["fcmpf", w, FFLAG[c], p.json_of(o1), p.json_of(o2)])
        for _ in range(rng.randrange(1, 3)):
            if rng.random() < 0.5:
                c = FPAIR[c]
            k = rng.choice(["opf", "opf", "jmp", "sel", "fsel", "fsel"])
            if k == "opf":
                d = ("r", self.dstreg())
                p.both("opf MOV %s %s" % (p.text_of(d), c), ["opf", "MOV", p.w, 0, p.json_of(d), c])
                self.setdst(d[1], p.w)
            elif k == "sel":
                cc = self.regs(p.w)
                if len(cc) >= 2:
                    s1, sb = rng.sample(cc, 2)
                    d = self.dstreg([sb, s1])
                    p.both("sel %s %s %s %s" % (c, p.reg(d), p.reg(s1), p.reg(sb)), ["sel", c, p.w, d + 1, ["r", s1 + 1], sb + 1])
                    self.setdst(d, p.w)
            elif k == "fsel":
                self.fsel(c)
            else:
                L = p.newlabel()
                p.both("jmp %s %d" % (c, L), ["jmp", c, p.ref(L)])
                self.skipmark(L)
                return

    def fsel(self, c):
        """flags are live: the operands are whatever is there"""
        rng, p = self.rng, self.p
        w = rng.choice([4, 8])
        have = [f for f in range(p.nf) if p.fkind[f] == str(w)]
        if not have:
            return
        s2 = rng.choice(have)
        if rng.random() < 0.6:
            s1 = ("f", rng.choice(have))
        else:
            s1 = ("m", rng.choice(list(self.pins)), None, 0, rng.choice([0x1000, 0x1008, 0x1800]))
        d = rng.choice([s2, s1[1] if s1[0] == "f" else s2, self.freg()])
        p.both("fsel %s %s %s %s" % (c + ("+32" if w == 4 else ""), p.freg(d), p.text_of(s1), p.freg(s2)), ["fsel", c, w, d + 1, p.json_of(s1), s2 + 1])
        p.fkind[d] = str(w)
        self.fval.pop(d, None)

    def intsel(self, w):
        rng, p = self.rng, self.p
        r = self.dstreg()
        v = rval(rng, 8 * p.w)
        self.movi(r, v)
        t = rng.choice(["LESS", "GREATER", "SIG_LESS", "SIG_GREATER", "OVERFLOW", "CARRY", "Z"])
        b = ("i", rng.choice([v, 0, 1, rval(rng, 8 * p.w)]))
        z = t == "Z"
        p.both("op2u SUB%s %s %s" % ("+Z" if z else "+F." + t, p.reg(r), p.text_of(b)), ["op2u", "SUB", p.w, 1 if z else 0, "" if z else t, ["r", r + 1], p.json_of(b)])
        self.fsel(rng.choice(CONDS[t]))

    def skipmark(self, L):
        p, rng = self.p, self.rng
        self.sync_skip = True
        r = self.dstreg()
        # in the skipped code: a visible mark
        m = ("m", rng.choice(list(self.pins)), None, 0, 0x2800 + 8 * rng.randrange(64))
        p.both("op1 MOV %s #1f" % p.text_of(m), ["op1", "MOV", p.w, p.json_of(m), ["i", word(0x1f, p.w)]])
        p.label(L)

    def fsync(self):
        self.p.obs("f")
        if self.unobs:
            self.sync()


def c07_random(w, n, seed, tag="rnd"):
    rng = random.Random(seed * 7 + 7)
    out = []
    pats = makepats(rng)
    for k in range(n):
        p = Prog("C07-%s-%d-%d-%d" % (tag, w, seed, k), w, 6, 6, 6, 0, local=64)
        for i in range(p.nr):
            p.init[i] = rng.getrandbits(8 * w)
        p.finit = [rf(rng, 8) for _ in range(6)]
        g = FloatGen(p, rng, pats)
        p.init[6] = p.init[1] = D
        g.pins = {6, 1}
        for j in range(14):
            ww = rng.choice([4, 8])
            c = rng.random()
            g.hold = set()
            if c < 0.24:
                g.arith(ww)
            elif c < 0.42:
                g.unary(ww)
            elif c < 0.52:
                g.toint(ww)
            elif c < 0.62:
                g.fromint(ww)
            elif c < 0.68:
                g.setk(ww)
            elif c < 0.78:
                g.copy(ww)
            elif c < 0.95:
                g.compare(ww)
            else:
                g.intsel(ww)
            if rng.random() < 0.35:
                g.fsync()
        g.fsync()
        p.obs("r")
        p.end()
        out.append(p)
    return out
