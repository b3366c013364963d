"""LIR programs: builder (text for the drivers, JSON for the specification) and
random / systematic generators."""
import json, random

D, H = 0x5a001000, 0x1234561000
DSZ, HSZ = 0x3000, 0x2000
OBS, INI = 0x5b000000, 0x5b100000
LBLOG = OBS + 128 * 2048
BASEREGS = ("r0", "r1", "r2", "s0", "s1", "s2")


def word(v, n):
    v &= (1 << (8 * n)) - 1
    return [(v >> (8 * i)) & 255 for i in range(n)]


def sx(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class Prog:
    """sc, sv: integer registers declared; registers are numbered 0..sc-1 (R0..) then S0.."""
    def __init__(self, pid, w, sc=6, sv=6, fsc=0, fsv=0, vsc=0, vsv=0, vsize=16, local=0, opts=0, sig="v", ret="-", enter=True, vmap=None):
        self.vmap = vmap
        self.id, self.w = pid, w
        self.sc, self.sv, self.fsc, self.fsv, self.vsc, self.vsv, self.vsize = sc, sv, fsc, fsv, vsc, vsv, vsize
        self.local = local
        self.nr = sc + sv
        self.nf = fsc + fsv
        self.nv = len(vmap) if vmap else vsc + vsv
        self.init = [0] * self.nr
        self.finit = [0] * self.nf
        self.vinit = [[0] * vsize for _ in range(self.nv)]
        self.kind = ["w"] * self.nr        # w: full word, 4: 32 bit form, 0: undefined
        self.fkind = ["8"] * self.nf
        self.lines = []                    # text instructions
        self.jins = []                     # specification instructions
        self.src = []                      # text line of each
        self.masks = []
        self.nlab = 0
        self.labpos = {}
        self.ret = ret
        self.wantaddr = self.wantlb = False
        self.regions = None
        self.tabs, self.lay, self.bufs, self.laborder = [], [], [], []
        self.sig = sig
        self.head, self.patches = [], []
        if enter:
            self.t("enter %x %s %d %d %d %d %d %d %d" % (opts, sig + ":", sc, sv, fsc, fsv, vsc, vsv, local))
            self.t("init")

    # ---- raw emission
    def t(self, line):
        self.lines.append(line)

    def j(self, ins, line=None):
        self.jins.append(ins)
        self.src.append(line or (self.lines[-1] if self.lines else ""))

    def both(self, line, ins):
        self.t(line)
        self.j(ins, line)

    @property
    def nobs(self):
        return len(self.masks)

    # ---- names
    def reg(self, i):
        return "r%d" % i if i < self.sc else "s%d" % (i - self.sc)

    def freg(self, i):
        return "f%d" % i if i < self.fsc else "g%d" % (i - self.fsc)

    def vreg(self, i):
        return "v%d" % self.vmap[i] if self.vmap else "v%d" % i if i < self.vsc else "w%d" % (i - self.vsc)

    def baseable(self, i):
        n = self.reg(i)
        return n in BASEREGS

    def hx(self, v):
        return "%x" % (v & ((1 << (8 * self.w)) - 1))

    def text_of(self, o):
        k = o[0]
        if k == "r":
            return self.reg(o[1])
        if k == "f":
            return self.freg(o[1])
        if k == "v":
            return self.vreg(o[1])
        if k == "i":
            return "#" + self.hx(o[1])
        if k == "l":
            return "L%x" % o[1]
        _, b, x, sh, off = o
        if b is None:
            return "@" + self.hx(off)
        if x is None:
            return "M%s:%s" % (self.reg(b), self.hx(off))
        return "N%s:%s:%d" % (self.reg(b), self.reg(x), sh)

    def json_of(self, o):
        k = o[0]
        if k in "rfv" and len(k) == 1:
            return [k, o[1] + 1]
        if k == "i":
            return ["i", word(o[1], self.w)]
        if k == "l":
            return ["l", o[1]]
        _, b, x, sh, off = o
        return ["m", 0 if b is None else b + 1, 0 if x is None else x + 1, sh, word(off, self.w)]

    # ---- observation
    def obs(self, kind="r"):
        k = len(self.masks)
        assert k < 128, "too many observations"
        if kind == "r":
            m = "".join({"w": "8", "4": "4", "0": "0"}[x] for x in self.kind)
            name = "obs"
        elif kind == "f":
            m = "".join(self.fkind)
            name = "fobs"
        else:
            m = "8" * self.nv
            name = "vobs"
        self.masks.append((kind, m))
        self.both("obs %s %d" % (kind, k), [name, k + 1])

    # ---- labels
    def newlabel(self):
        self.nlab += 1
        return self.nlab - 1

    def label(self, l):
        self.both("label %d" % l, ["label"])
        self.labpos[l] = len(self.jins)
        self.laborder.append(l)

    def alabel(self, ls, align, sizes=()):
        """aligned label; ls: labels of the buffers (the first is the label itself)"""
        self.both("alabel %d %d %d %s" % (ls[0], align, len(sizes), " ".join("%d" % s for s in sizes)), ["label"])
        for l in ls:
            self.labpos[l] = len(self.jins)
            self.laborder.append(l)
        self.lay.append([ls[0] + 1, align])
        for i, n in enumerate(sizes):
            self.bufs.append([ls[i] + 1, n, ls[i + 1] + 1 if i + 1 < len(sizes) else 0])

    def fill(self, l, labs):
        self.t("fill %d %s" % (l, " ".join("%d" % x for x in labs)))
        self.tabs.append([l + 1, [x + 1 for x in labs]])

    def ref(self, l):
        return ("L", l)

    # ---- end
    def end(self, retop=None, width=0):
        if retop is None:
            self.t("retv")
            self.j(["end", ["none"], 0])
        self.src[-1] = "return"

    def endret(self, name, retop, width):
        self.both("ret %s %s" % (name, self.text_of(retop)), ["end", self.json_of(retop), width])

    def site(self, pc):
        return self.src[max(0, pc - 4):pc]

    # ---- output
    def text(self):
        o = ["P " + self.id, "D %d %d %d %d %d %d %d" % (self.sc, self.sv, self.fsc, self.fsv, self.vsc, self.vsv, self.vsize)]
        if self.init:
            o.append("I " + " ".join("%x" % (v & ((1 << 8 * self.w) - 1)) for v in self.init))
        if self.finit:
            o.append("J " + " ".join("%x" % v for v in self.finit))
        if self.vinit:
            o.append("V " + " ".join("".join("%02x" % b for b in v) for v in self.vinit))
        for k, (kind, m) in enumerate(self.masks):
            o.append("O %d %s %s" % (k, kind, m))
        o.append("R " + self.ret)
        if self.vmap:
            o.append("W " + " ".join("%d" % x for x in self.vmap))
        if self.wantaddr:
            o.append("A")
        if self.wantlb:
            o.append("B")
        o += self.head
        o += ["." + l for l in self.lines]
        o.append("X")
        return "\n".join(o) + "\n"

    def res(self, x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "L":
            return self.labpos[x[1]]
        if isinstance(x, (list, tuple)):
            return [self.res(y) for y in x]
        return x

    def json(self):
        w = self.w
        reg = [[word(D, w), DSZ, 17], [word(H if w == 8 else 0x70000000, w), HSZ, 91], [[0] * w, max(self.local, 1), -1]]
        if self.regions:
            reg = self.regions
        return '"w":%d,"ins":%s,"init":%s,"finit":%s,"vinit":%s,"reg":%s,"lcell":%d,"ltarget":%s,"tabs":%s,"lay":%s,"bufs":%s,"laborder":%s%s' % (
            w, json.dumps(self.res(self.jins), separators=(",", ":")), json.dumps([word(v, w) for v in self.init], separators=(",", ":")),
            json.dumps([word(v, 8) for v in self.finit], separators=(",", ":")), json.dumps(self.vinit, separators=(",", ":")),
            json.dumps(reg, separators=(",", ":")), 3 * 16777216, json.dumps([self.labpos.get(l, 0) for l in range(self.nlab)]),
            json.dumps(self.tabs), json.dumps(self.lay), json.dumps(self.bufs), json.dumps([l + 1 for l in self.laborder]),
            ',"patches":' + json.dumps(self.res(self.patches)) if self.patches else "")


# ---------------------------------------------------------------- values
def boundary(bits):
    s = set()
    m = (1 << bits) - 1
    for k in range(bits):
        for d in (-1, 0, 1):
            s.add(((1 << k) + d) & m)
            s.add((-(1 << k) + d) & m)
    return sorted(s)


def patterns(bits, rng, n=60):
    """values that instruction encodings treat specially"""
    m = (1 << bits) - 1
    s = set()
    for k in range(0, 32, 2):                       # ARM rotated bytes
        for b in (0xff, 0xab, 0x81):
            v = ((b << k) | (b >> (32 - k) if k else 0)) & 0xffffffff
            s |= {v, ~v & 0xffffffff, -v & 0xffffffff}
    for b in (0x12, 0xff, 0x80):                    # Thumb-2 repeated bytes
        s |= {b | b << 16, b << 8 | b << 24, b * 0x01010101}
    for _ in range(n // 3):                         # ARM64 logical immediates
        e = rng.choice([x for x in (2, 4, 8, 16, 32, 64) if x <= bits])
        ones = rng.randrange(1, e)
        rot = rng.randrange(e)
        v = (1 << ones) - 1
        v = ((v << rot) | (v >> (e - rot))) & ((1 << e) - 1)
        r = 0
        for i in range(0, bits, e):
            r |= v << i
        s.add(r)
    for _ in range(n // 3):                         # half words / two chunk constants
        v = 0
        for i in range(bits // 16):
            v |= rng.choice([0, 0, 0xffff, 0xffff, rng.randrange(65536)]) << (16 * i)
        s.add(v)
    for _ in range(n // 3):
        k = rng.randrange(1, bits)
        v = rng.randrange(1 << k) << rng.randrange(bits - k + 1)
        s |= {v, -v & m, ~v & m}
    for k in (11, 12, 13, 16, 20, 24):              # limits of immediate fields
        for d in (-2, -1, 0, 1, 2):
            s |= {(1 << (k - 1)) + d, (1 << k) + d, -(1 << (k - 1)) + d, -(1 << k) + d}
    for a in (0x7ff, 0x800, 0xfff, 0x7fff, 0x8000, 0xffff):
        s |= {a << 16, (a << 12), (a << 12) | 0x800, (a << 12) | 0x7ff}
    if bits == 64:
        s |= {0x80000000, 0x7fffffff, 0xffffffff, 0x100000000, 0xffffffff80000000, 0xffffffff7fffffff, 0x7ffff7ff, 0x7ffff800, 0x7ffffffffffff800,
              0x00000000fffff800, 0x1234567812345678, 0xffff0000ffff0000, 0x0000ffffffffffff, 0x7fffffff7fffffff, 0x8000000080000000,
              0xfffff80000000000, 0x80000000000007ff, 0x8000000000000800, 0x7fffffff800, 0x80000000800, 0xfffffffffffff7ff}
    return sorted(v & m for v in s)


def rval(rng, bits):
    c = rng.random()
    m = (1 << bits) - 1
    if c < 0.30:
        return rng.choice(boundary(bits))
    if c < 0.45:
        return rng.randrange(-20, 21) & m
    if c < 0.60:
        k = rng.randrange(1, bits + 1)
        return (rng.randrange(1 << k) << rng.randrange(bits - k + 1)) & m
    if c < 0.70:
        return sx(rng.getrandbits(32), 32) & m
    if c < 0.75 and bits == 64:
        return rng.getrandbits(32)
    return rng.getrandbits(bits)


def rimm(rng, bits, pats):
    c = rng.random()
    if c < 0.45:
        return rng.choice(pats)
    return rval(rng, bits)


OP1MOV = ["MOV", "MOV_U8", "MOV_S8", "MOV_U16", "MOV_S16", "MOV_U32", "MOV_S32", "MOV32", "MOV_P"]
OP1BIT = ["CLZ", "CTZ", "REV", "REV_U16", "REV_S16", "REV_U32", "REV_S32"]
OP2 = ["ADD", "SUB", "MUL", "AND", "OR", "XOR", "SHL", "MSHL", "LSHR", "MLSHR", "ASHR", "MASHR", "ROTL", "ROTR", "ADDC", "SUBC"]
UNMASKED = ("SHL", "LSHR", "ASHR")
SHIFTS = ("SHL", "MSHL", "LSHR", "MLSHR", "ASHR", "MASHR", "ROTL", "ROTR")
MSIZE = {"MOV_U8": 1, "MOV_S8": 1, "MOV_U16": 2, "MOV_S16": 2, "REV_U16": 2, "REV_S16": 2, "MOV_U32": 4, "MOV_S32": 4, "MOV32": 4, "REV_U32": 4, "REV_S32": 4}
FLAGTYPES = {"ADD": ["OVERFLOW", "CARRY"], "SUB": ["LESS", "GREATER", "SIG_LESS", "SIG_GREATER", "OVERFLOW", "CARRY"], "MUL": ["OVERFLOW"],
             "ADDC": ["CARRY"], "SUBC": ["CARRY"]}
ZOPS = ("ADD", "SUB", "AND", "OR", "XOR") + SHIFTS[:6]
CONDS = {"Z": ["EQUAL", "NOT_EQUAL", "ZERO", "NOT_ZERO"], "LESS": ["LESS", "GREATER_EQUAL"], "GREATER": ["GREATER", "LESS_EQUAL"],
         "SIG_LESS": ["SIG_LESS", "SIG_GREATER_EQUAL"], "SIG_GREATER": ["SIG_GREATER", "SIG_LESS_EQUAL"],
         "OVERFLOW": ["OVERFLOW", "NOT_OVERFLOW"], "CARRY": ["CARRY", "NOT_CARRY"]}
CMPS = ["EQUAL", "NOT_EQUAL", "LESS", "GREATER_EQUAL", "GREATER", "LESS_EQUAL", "SIG_LESS", "SIG_GREATER_EQUAL", "SIG_GREATER", "SIG_LESS_EQUAL"]


def opname(n, is32):
    """name of the 32 bit form"""
    if not is32:
        return n
    for p in ("MOV_", "REV_"):
        if n.startswith(p) and n not in ("MOV_U32", "MOV_S32", "REV_U32", "REV_S32", "MOV_P"):
            return p[:-1] + "32_" + n[len(p):]
    if n in ("MOV32", "MOV_U32", "MOV_S32", "MOV_P", "REV_U32", "REV_S32"):
        return n
    return n + "32"


def forced32(n):      # 32 bit only in its own form
    return n == "MOV32"


class Gen:
    """random instructions on a Prog, keeping track of what is defined"""
    def __init__(self, p, rng, pats, memregs=2):
        self.p, self.rng, self.pats = p, rng, pats
        self.bits = 8 * p.w
        self.unobs = set()       # registers holding a not yet observed result
        self.pins = set()        # registers never written
        self.pinval = {}         # their values
        self.lset = set()        # defined bytes of the locals
        self.flags = None        # (z, type, w)
        self.hold = set()

    # registers holding a 32 / full value
    def regs(self, w):
        p = self.p
        k = ("w",) if w == p.w else ("4",)
        if p.w == 4:
            k = ("w",)
        return [i for i in range(p.nr) if p.kind[i] in k and i not in self.pins]

    def movi(self, r, v, w=None):
        p = self.p
        w = w or p.w
        n = "MOV" if w == p.w else "MOV32"
        p.both("op1 %s %s %s" % (n, p.reg(r), p.text_of(("i", v))), ["op1", n, w, p.json_of(("r", r)), p.json_of(("i", v))])
        p.kind[r] = "w" if w == p.w else "4"
        self.unobs.discard(r)

    def need(self, w, avoid=()):
        """a register holding a value of width w"""
        c = [i for i in self.regs(w) if i not in avoid]
        if c and self.rng.random() < 0.92:
            return self.rng.choice(c)
        c = [i for i in range(self.p.nr) if i not in self.pins and i not in avoid and i not in self.unobs] or \
            [i for i in range(self.p.nr) if i not in self.pins and i not in avoid]
        r = self.rng.choice(c)
        self.movi(r, rval(self.rng, 8 * w) if w == self.p.w else sx(rval(self.rng, 32), 32), w)
        return r

    def mem(self, size, dst=False):
        """an aligned memory operand of size bytes"""
        rng, p = self.rng, self.p
        c = rng.random()
        al = size
        if p.local and c < 0.25:
            o = rng.randrange(0, (p.local - size) // al + 1) * al
            if dst or all(k in self.lset for k in range(o, o + size)):
                if dst:
                    self.lset |= set(range(o, o + size))
                return ("l", o)
        bases = [r for r in self.pins if p.baseable(r) and r in self.pinval and self.pinval[r][0] == "b"]
        idxs = [r for r in self.pins if p.baseable(r) and r in self.pinval and self.pinval[r][0] == "x"]
        if c < 0.45 or not bases:
            return ("m", None, None, 0, D + rng.randrange(0, DSZ // al) * al)
        b = rng.choice(bases)
        bv = self.pinval[b][1]
        if c < 0.6 and idxs:
            x = rng.choice(idxs)
            return ("m", b, x, rng.randrange(4), 0)
        k = rng.random()
        lo, hi = D - bv, D + DSZ - bv - size
        if k < 0.5:
            o = rng.randrange(-64, 64) * al if k < 0.25 else rng.randrange(-260, 261)
        elif k < 0.7:
            o = rng.choice([-256, -255, 255, 256, -4096, -4095, 4095, 4096, 2047, 2048, -2048, -2049, 1020, 1024, 127, 128, -128, -129, 0])
        else:
            o = rng.randrange(lo, hi)
        o = max(lo, min(hi, o))
        o -= (bv + o) % al
        if o < lo:
            o += al
        return ("m", b, None, 0, o)

    def src(self, w, imm=True, memok=True, avoid=(), n=None, size=None):
        c = self.rng.random()
        if imm and c < 0.4:
            v = rimm(self.rng, 8 * w, self.pats[8 * w])
            if w < self.p.w and self.rng.random() < 0.6:
                v = sx(v, 32)
            return ("i", v)
        if memok and c < 0.55:
            return self.mem(size or w)
        return ("r", self.need(w, avoid))

    def dstreg(self, srcs=(), avoid=()):
        rng, p = self.rng, self.p
        free = [i for i in range(p.nr) if i not in self.pins and i not in self.unobs and i not in avoid]
        al = [i for i in srcs if i not in self.pins and i not in avoid]
        if al and rng.random() < 0.3:
            r = rng.choice(al)
            if r in self.unobs and rng.random() < 0.7:
                self.sync()
            return r
        if not free:
            self.sync()
            free = [i for i in range(p.nr) if i not in self.pins and i not in avoid]
        return rng.choice(free)

    def sync(self):
        self.p.obs("r")
        self.unobs.clear()

    def setdst(self, r, w):
        p = self.p
        p.kind[r] = "w" if w == p.w else "4"
        self.unobs.add(r)

    def hot(self, size, value=None):
        """a memory operand addressed by a register which may be overwritten; returns it and the register"""
        m, r = self.hot1(size, value)
        if m:
            self.hold |= {x for x in m[1:3] if x is not None}
        return m, r

    def hot1(self, size, value):
        rng, p = self.rng, self.p
        c = [i for i in range(p.nr) if p.baseable(i) and i not in self.pins and i not in self.hold]
        if not c:
            return None, None
        r = rng.choice(c)
        if r in self.unobs:
            self.sync()
        a = D + 0x400 + rng.randrange(0, 0x2000 // size) * size
        if value is not None:
            n = "MOV" if size == p.w else "MOV32"
            m = ("m", None, None, 0, a)
            p.both("op1 %s %s %s" % (n, p.text_of(m), p.text_of(("i", value))), ["op1", n, size, p.json_of(m), p.json_of(("i", value))])
        bases = [b for b in self.pins if p.baseable(b) and b in self.pinval and self.pinval[b][0] == "b"]
        c = rng.random()
        if c < 0.3 and bases:
            b = rng.choice(bases)
            d = a - self.pinval[b][1]
            sh = rng.choice([k for k in range(4) if d % (1 << k) == 0])
            self.movi(r, d >> sh)
            return ("m", b, r, sh, 0), r
        if c < 0.45:
            d = rng.choice([0, 8, 16, -8])
            xs = [i for i in range(p.nr) if p.baseable(i) and i not in self.pins and i != r and i not in self.unobs and i not in self.hold]
            if xs:
                x = rng.choice(xs)
                sh = rng.choice([0, 0, 1, 2, 3])
                self.movi(x, d)
                self.movi(r, a - (d << sh))
                return ("m", r, x, sh, 0), rng.choice([r, r, x])
        o = rng.choice([0, 0, 8, -8, 0x100, -0x100, 0x7f8, 0x1000, -0x1008, 0x12340])
        self.movi(r, a - o)
        return ("m", r, None, 0, o), r

    # ---- instructions
    def op1(self, n=None, w=None, dstmem=None, srcform=None):
        rng, p = self.rng, self.p
        n = n or rng.choice(OP1MOV + OP1BIT * 2)
        if p.w == 4 and n in ("REV_U32", "REV_S32") and False:
            n = "REV"
        w = w or rng.choice([p.w, 4])
        if n in ("MOV_U32", "MOV_S32", "MOV_P", "REV_U32", "REV_S32"):
            w = p.w
        if n == "MOV32":
            w = 4
        if n == "MOV" and w == 4:
            n = "MOV32"
        size = MSIZE.get(n, w)
        mv = n.startswith("MOV")
        c = rng.random()
        # register sources
        if srcform is None:
            srcform = "i" if mv and c < 0.35 else "m" if c < 0.55 else "r"
        hr = None
        if srcform == "m" and rng.random() < 0.4 or srcform == "r" and dstmem is None and rng.random() < 0.1:
            hm, hr = self.hot(size if srcform == "m" else size if mv or n in ("REV_U16", "REV_S16", "REV_U32", "REV_S32") else w)
        if hr is not None and srcform == "r":
            s = ("r", hr) if p.kind[hr] == ("w" if w == p.w or p.w == 4 else "4") and rng.random() < 0.7 else ("r", self.need(w, (hr,) + tuple(x for x in hm[1:3] if x is not None)))
        elif hr is not None:
            s = hm
        elif srcform == "i":
            v = rimm(rng, 8 * w, self.pats[8 * w])
            s = ("i", sx(v, 32) if w < p.w and rng.random() < 0.6 else v)
        elif srcform == "m":
            s = self.mem(size)
        else:
            if n in ("MOV_U32", "MOV_S32", "MOV32") and p.w == 8:
                c2 = [i for i in range(p.nr) if p.kind[i] != "0" and i not in self.pins]
                s = ("r", rng.choice(c2))
            else:
                s = ("r", self.need(w))
        if dstmem is None:
            dstmem = rng.random() < 0.25
        if hr is not None and srcform == "r":
            d = hm
        elif hr is not None and rng.random() < 0.75:
            d = ("r", hr)
        elif dstmem:
            d = self.mem(size if mv or n in ("REV_U16", "REV_S16", "REV_U32", "REV_S32") else w, True)
        else:
            d = ("r", self.dstreg([s[1]] if s[0] == "r" else []))
        nm = opname(n, w == 4 and p.w == 8 or (p.w == 4 and rng.random() < 0.3 and n not in ("MOV",)))
        if nm == "MOV" and False:
            pass
        p.both("op1 %s %s %s" % (nm, p.text_of(d), p.text_of(s)), ["op1", n, w, p.json_of(d), p.json_of(s)])
        if d[0] == "r":
            self.setdst(d[1], w)
        if not mv:
            self.flags = None

    def shiftamount(self, w, masked, nonzero=False):
        rng = self.rng
        bits = 8 * w
        c = rng.random()
        lo = 1 if nonzero else 0
        if c < 0.5:
            v = rng.randrange(lo, bits)
            if rng.random() < 0.25:
                v = rng.choice([max(lo, 0), 1, bits - 1, bits // 2, 8, 16, 24])
            if rng.random() < 0.2 and not nonzero:
                v += bits * rng.choice([1, -1, 3])
            return ("i", v)
        if masked and c < 0.6:
            return None          # any operand
        r = self.dstreg()
        v = rng.randrange(lo, bits)
        if masked and not nonzero:
            v = rval(rng, bits)
        self.movi(r, sx(v, 8 * w) if w == 4 else v, w)
        return ("r", r)

    def op2(self, n=None, w=None, forms=None, flags=None, u=False, dstmem=None, dstr=None):
        rng, p = self.rng, self.p
        n = n or rng.choice(OP2)
        w = w or rng.choice([p.w, p.w, 4])
        is32 = (w == 4 and p.w == 8) or (p.w == 4 and rng.random() < 0.2)
        # borrow and carry are not interchangeable (their representation depends on the CPU)
        if n in ("ADDC", "SUBC") and not (self.flags and self.flags[1] == "CARRY" and self.flags[2] == w and self.flags[4] == n[:3]):
            self.op2("ADD" if n == "ADDC" else "SUB", w, flags=("", "CARRY"), u=rng.random() < 0.3)
        if self.flags and n in ("ADDC", "SUBC") and p.w == 4:
            is32 = self.flags[3]
        hm = hr = hk = None
        if n not in ("ADDC", "SUBC") and dstr is None and rng.random() < 0.16:
            hk = rng.choice([1, 2, 2, 3])
            if hk == 2 and n in SHIFTS:
                v = rng.randrange(8 * w) if n in UNMASKED or rng.random() < 0.5 else rval(rng, 8 * w)
                hm, hr = self.hot(w, sx(v, 32) if w == 4 else v)
            else:
                hm, hr = self.hot(w)
        hp = {x for x in hm[1:3] if x is not None} - self.pins if hm else set()
        self.pins |= hp
        s1 = self.src_noflags(w) if n in ("ADDC", "SUBC") else self.src(w)
        if n in SHIFTS:
            s2 = self.shiftamount(w, n not in UNMASKED) or self.src(w)
        else:
            s2 = self.src_noflags(w, s1) if n in ("ADDC", "SUBC") else self.src(w)
        if s1[0] == "r" and p.kind[s1[1]] != ("w" if w == p.w else "4"):
            s1 = ("r", self.need(w))     # its register was reloaded meanwhile
        if s1[0] == "r" and s2[0] == "r" and n not in SHIFTS and rng.random() < 0.1:
            s2 = s1
        self.pins -= hp
        if hm:
            if hk == 1:
                s1 = hm
                if w == p.w and rng.random() < 0.25 and n not in UNMASKED:
                    s2 = ("r", hr)
            elif hk == 2:
                s2 = hm
                if w == p.w and rng.random() < 0.25:
                    s1 = ("r", hr)
            elif w == p.w and rng.random() < 0.5:
                s1 = ("r", hr)
            elif w == p.w and n not in UNMASKED:
                s2 = ("r", hr)
        z, t = 0, ""
        if flags is not None:
            z, t = (1 if flags[0] else 0), flags[1]
        elif rng.random() < 0.35:
            z = 1 if n in ZOPS and rng.random() < 0.6 else 0
            if n in FLAGTYPES and rng.random() < 0.7:
                t = rng.choice(FLAGTYPES[n])
        if u and not z and not t:
            if n in ZOPS:
                z = 1
            elif n in FLAGTYPES:
                t = rng.choice(FLAGTYPES[n])
            else:
                u = False
        nm = opname(n, is32) + ("+Z" if z else "") + ("+F." + t if t else "")
        if u:
            p.both("op2u %s %s %s" % (nm, p.text_of(s1), p.text_of(s2)), ["op2u", n, w, z, t, p.json_of(s1), p.json_of(s2)])
        else:
            if dstmem is None:
                dstmem = rng.random() < 0.15
            self.hold |= {s[1] for s in (s1, s2) if s[0] == "r"}
            if hm and hk == 3:
                d = hm
            elif hm and rng.random() < 0.8:
                d = ("r", hr)
            elif dstmem:
                k = [s for s in (s1, s2) if s[0] in "lm"]
                d = k[0] if k and rng.random() < 0.3 else self.mem(w, True)
            else:
                d = ("r", self.dstreg([s[1] for s in (s1, s2) if s[0] == "r"]) if dstr is None else dstr)
            p.both("op2 %s %s %s %s" % (nm, p.text_of(d), p.text_of(s1), p.text_of(s2)),
                   ["op2", n, w, z, t, p.json_of(d), p.json_of(s1), p.json_of(s2)])
            if d[0] == "r":
                self.setdst(d[1], w)
        self.flags = (z, t, w, is32, n[:3]) if z or t else None

    def src_noflags(self, w, avoid=None):
        """operand which needs no new instruction"""
        c = self.regs(w)
        k = self.rng.random()
        if not c or k < 0.35:
            v = rimm(self.rng, 8 * w, self.pats[8 * w])
            return ("i", sx(v, 32) if w < self.p.w else v)
        if k < 0.5:
            return self.mem(w)
        return ("r", self.rng.choice(c))

    def op0(self):
        rng, p = self.rng, self.p
        n = rng.choice(["LMUL_UW", "LMUL_SW", "DIVMOD_UW", "DIVMOD_SW", "DIV_UW", "DIV_SW"])
        w = p.w if n.startswith("LMUL") else rng.choice([p.w, 4])
        if 0 in self.pins or 1 in self.pins:
            return
        if self.unobs & {0, 1}:
            self.sync()
        bits = 8 * w
        a, b = rval(rng, bits), rval(rng, bits)
        if n.startswith("DIV"):
            if rng.random() < 0.3:
                b = rval(rng, rng.choice([4, 8, 16]))
            if b == 0:
                b = 3
            if n.endswith("SW") and b == (1 << bits) - 1 and a == 1 << (bits - 1):
                b = 7
        if w == 4:
            a, b = sx(a, 32), sx(b, 32)
        self.movi(0, a, w)
        self.movi(1, b, w)
        is32 = (w == 4 and p.w == 8) or (p.w == 4 and n.startswith("DIV") and rng.random() < 0.3)
        nm = (n[:-1] + "32" if is32 else n)
        p.both("op0 " + nm, ["op0", n, w])
        self.setdst(0, w)
        self.setdst(1, w)
        self.flags = None

    def muladd(self):
        rng, p = self.rng, self.p
        w = rng.choice([p.w, 4])
        s1, s2 = self.src(w), self.src(w)
        d = self.need(w)
        if s1[0] == "r" and p.kind[s1[1]] != ("w" if w == p.w else "4") or s2[0] == "r" and p.kind[s2[1]] != ("w" if w == p.w else "4"):
            return
        if d in self.unobs:
            self.sync()
        p.both("op2r %s %s %s %s" % (opname("MULADD", w < p.w), p.reg(d), p.text_of(s1), p.text_of(s2)),
               ["op2r", "MULADD", w, d + 1, p.json_of(s1), p.json_of(s2)])
        self.setdst(d, w)
        self.flags = None

    def shi(self):
        rng, p = self.rng, self.p
        w = rng.choice([p.w, 4])
        n = rng.choice(["SHL", "MSHL", "LSHR", "MLSHR"])
        nz = rng.random() < 0.3
        s3 = self.shiftamount(w, n[0] == "M" and not nz, nz) or ("r", self.need(w))
        hr = None
        if not nz and rng.random() < 0.15:
            v = rng.randrange(8 * w)
            hm, hr = self.hot(w, sx(v, 32) if w == 4 else v)
            if hr is not None:
                s3 = hm
                hp = {x for x in hm[1:3] if x is not None} - self.pins
                self.pins |= hp
        elif n[0] == "M" and not nz and rng.random() < 0.2:
            s3 = self.mem(w)
        av = (s3[1],) if s3[0] == "r" else ()
        s1 = self.need(w, av) if rng.random() < 0.9 or not av else s3[1]
        s2 = self.need(w, av + (s1,)) if rng.random() < 0.9 or not av else s3[1]
        if hr is not None:
            self.pins -= hp
        k = "w" if w == p.w else "4"
        if p.kind[s1] != k or p.kind[s2] != k or (s3[0] == "r" and p.kind[s3[1]] != k):
            return
        if nz and s3[0] == "r" and self.unshift(s3[1], s1, s2):
            pass
        if rng.random() < 0.15:
            s2 = s1
        al = [s1] + ([s3[1]] if s3[0] == "r" else [])
        d = hr if hr is not None and rng.random() < 0.7 and hr != s2 else self.dstreg([x for x in al if x != s2], avoid=(s2,))
        nm = opname(n, w < p.w) + ("+NZ" if nz else "")
        p.both("shi %s %s %s %s %s" % (nm, p.reg(d), p.reg(s1), p.reg(s2), p.text_of(s3)),
               ["shi", n, w, d + 1, s1 + 1, s2 + 1, p.json_of(s3)])
        self.setdst(d, w)
        self.flags = None

    def unshift(self, *a):
        return False


def newprog(pid, w, rng, pats, sc=None, sv=None, local=None, bases=True, gen=None, **kw):
    if sc is None:
        sv = rng.choice([6, 6, 6, 5, 4, 2, 3]) if sv is None else sv
        sc = 12 - sv if rng.random() < 0.8 else min(6, 12 - sv)
    local = rng.choice([0, 16, 64, 256]) if local is None else local
    p = Prog(pid, w, sc, sv, local=local, **kw)
    g = (gen or Gen)(p, rng, pats)
    for i in range(p.nr):
        p.init[i] = rval(rng, 8 * w)
    if bases:
        cand = [i for i in range(p.nr) if p.baseable(i) and i > 1]
        if cand:
            b = rng.choice(cand)
            x = rng.choice([i for i in cand if i != b] or [b])
            setpin(g, b, "b", D + 0x1000 + rng.choice([0, 0, 8, 0x7f8, 0x100]))
            if x != b:
                setpin(g, x, "x", rng.choice([0, 8, 16, 0x40, 0x80, -8, -64]))
    return p, g


def setpin(g, r, kind, v):
    g.p.init[r] = v
    g.pins.add(r)
    g.pinval[r] = (kind, v)


def makepats(rng):
    return {b: patterns(b, rng) + boundary(b) for b in (32, 64)}


def finish(p, g):
    g.sync()
    if p.local:
        pass
    p.end()
    return p


def c01_random(w, n, seed, per=10, tag="rnd", dense=False):
    rng = random.Random(seed)
    pats = makepats(rng)
    out = []
    for k in range(n):
        p, g = newprog("C01-%s-%d-%d" % (tag, w, k), w, rng, pats)
        for _ in range(per):
            c = rng.random()
            if c < 0.27:
                g.op1()
            elif c < 0.75:
                g.op2(u=False)
            elif c < 0.84:
                g.op0()
            elif c < 0.92:
                g.shi()
            else:
                g.muladd()
            if dense:
                g.sync()
        out.append(finish(p, g))
    return out


def c01_imms(w, seed, tag="imm", frac=1.0):
    """every immediate boundary x operation x side x width"""
    rng = random.Random(seed)
    pats = makepats(rng)
    todo = []
    for ow in ((8, 4) if w == 8 else (4,)):
        for v in sorted(set(pats[8 * ow])):
            for n in ("ADD", "SUB", "AND", "OR", "XOR", "MUL", "MOV", "RSUB"):
                if rng.random() < frac:
                    todo.append((n, v, ow))
    rng.shuffle(todo)
    out = []
    per = 12
    for k in range(0, len(todo), per):
        p, g = newprog("C01-%s-%d-%d" % (tag, w, k), w, rng, pats, bases=False, local=0)
        for n, v, ow in todo[k:k + per]:
            iv = sx(v, 32) if ow < w and rng.random() < 0.7 else v
            if n == "MOV":
                d = g.dstreg()
                g.movi(d, iv, ow)
                g.unobs.add(d)
                continue
            s = ("r", g.need(ow))
            z = 1 if n in ZOPS and rng.random() < 0.3 else 0
            d = g.dstreg([s[1]])
            s1, s2, nn = s, ("i", iv), n
            if n == "RSUB":
                s1, s2, nn = s2, s1, "SUB"
            elif rng.random() < 0.2 and n != "SUB":
                s1, s2 = s2, s1
            p.both("op2 %s %s %s %s" % (opname(nn, ow < w) + ("+Z" if z else ""), p.reg(d), p.text_of(s1), p.text_of(s2)),
                   ["op2", nn, ow, z, "", p.json_of(("r", d)), p.json_of(s1), p.json_of(s2)])
            g.setdst(d, ow)
        out.append(finish(p, g))
    return out


# ================================================================ C02: flags and their consumers
SCF = {"ADD": "CF.ADD", "SUB": "CF.SUB"}


class FlagGen(Gen):
    def pair(self, w):
        """two operand values with a decisive relation"""
        rng, bits = self.rng, 8 * w
        m = (1 << bits) - 1
        a = rimm(rng, bits, self.pats[bits])
        c = rng.random()
        if c < 0.2:
            b = a
        elif c < 0.35:
            b = (a + rng.choice([-1, 1])) & m
        elif c < 0.45:
            b = -a & m
        elif c < 0.5:
            b = (~a) & m
        elif c < 0.6:
            a = rng.choice([0, 1, m, m - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << (bits - 1)) + 1])
            b = rng.choice([0, 1, m, m - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << (bits - 1)) + 1])
        elif c < 0.65:
            b = a ^ (1 << (bits - 1))
        elif c < 0.75:
            a = rng.choice([0, 1 << (bits - 1)]) + rng.randrange(-3, 4) & m
            b = rng.choice([rng.randrange(-130, 131), 1 << (bits - 1)]) & m
            if rng.random() < 0.15:
                a, b = b, a
        elif c < 0.8:
            a, b = rng.choice(boundary(bits)), rng.choice(boundary(bits))
        else:
            b = rimm(rng, bits, self.pats[bits])
        return a, b

    def place(self, v, w, form):
        """operand holding value v"""
        p = self.p
        iv = sx(v, 32) if w < p.w else v
        if form == "i":
            return ("i", iv)
        if form == "r":
            r = self.dstreg()
            self.movi(r, iv, w)
            self.hold.add(r)
            return ("r", r)
        d = self.mem(w, True)
        nm = "MOV" if w == p.w else "MOV32"
        p.both("op1 %s %s %s" % (nm, p.text_of(d), p.text_of(("i", iv))), ["op1", nm, w, p.json_of(d), p.json_of(("i", iv))])
        return d

    def dstreg(self, srcs=(), avoid=()):
        return super().dstreg(srcs, tuple(avoid) + tuple(self.hold))

    def producer(self, n=None, w=None, t=None, kind=None):
        rng, p = self.rng, self.p
        self.hold = set()
        n = n or rng.choice(["ADD", "ADD", "SUB", "SUB", "SUB", "SUB", "AND", "OR", "XOR", "MUL", "SHL", "LSHR", "ASHR", "MSHL", "MLSHR", "MASHR"])
        w = w or rng.choice([p.w, p.w, 4])
        bits = 8 * w
        is32 = (w == 4 and p.w == 8) or (p.w == 4 and rng.random() < 0.2)
        a, b = self.pair(w)
        if n in SHIFTS:
            b = rng.randrange(0, bits) if rng.random() < 0.8 else 0
            if rng.random() < 0.3:
                a = (1 << rng.randrange(bits))
            elif rng.random() < 0.2:
                a = 0
        if n in ("AND",) and rng.random() < 0.4:
            b = ~a & ((1 << bits) - 1)
        if n == "MUL":
            k = rng.random()
            if k < 0.6:
                s = rng.randrange(1, bits)
                a = rng.getrandbits(s) | (1 << (s - 1))
                b = rng.getrandbits(bits - s) | (1 << max(bits - s - 1, 0))
                b >>= rng.randrange(0, 3)
                if rng.random() < 0.5:
                    a = -a & ((1 << bits) - 1)
                if rng.random() < 0.5:
                    b = -b & ((1 << bits) - 1)
        if t is None:
            ts = FLAGTYPES.get(n, [])
            t = rng.choice(ts) if ts and rng.random() < 0.8 else ""
        z = 1 if n in ZOPS and (not t or rng.random() < 0.4) else 0
        f1, f2 = rng.choice(["ri", "rr", "rr", "ri", "ir", "rm", "mr", "mi", "im", "mm", "ii"])
        s1 = self.place(a, w, f1)
        s2 = s1 if a == b and f1 == f2 == "r" and rng.random() < 0.3 and n not in SHIFTS else self.place(b, w, f2)
        kind = kind or rng.choice(["op2", "op2", "op2u", "op2u", "cmpz"])
        if kind == "op2u" and not (z or t):
            kind = "op2"
        if kind == "cmpz" and n not in ZOPS:
            kind = "op2"
        if kind == "op2u":
            nm = opname(n, is32) + ("+Z" if z else "") + ("+F." + t if t else "")
            p.both("op2u %s %s %s" % (nm, p.text_of(s1), p.text_of(s2)), ["op2u", n, w, z, t, p.json_of(s1), p.json_of(s2)])
        else:
            c = rng.random()
            if c < 0.12 or c < 0.6 and (s1[0] in "lm" and s2[0] == "i" or s2[0] in "lm" and s1[0] == "i"):
                d = s1 if s1[0] in "lm" else s2 if s2[0] in "lm" else self.mem(w, True)
            elif c < 0.4 and s1[0] == "r":
                d = s1
            elif c < 0.6 and s2[0] == "r":
                d = s2
            else:
                h, self.hold = self.hold, set()
                d = ("r", self.dstreg([s[1] for s in (s1, s2) if s[0] == "r"], avoid=[x for x in h if ("r", x) not in (s1, s2)]))
            if kind == "op2":
                nm = opname(n, is32) + ("+Z" if z else "") + ("+F." + t if t else "")
                p.both("op2 %s %s %s %s" % (nm, p.text_of(d), p.text_of(s1), p.text_of(s2)),
                       ["op2", n, w, z, t, p.json_of(d), p.json_of(s1), p.json_of(s2)])
                if d[0] == "r":
                    self.setdst(d[1], w)
            else:
                iz = rng.random() < 0.5
                z = 0
                nm = opname(n, is32) + ("+F." + t if t else "") + ("+IFZ" if iz else rng.choice(["", "+IFNZ"]))
                if rng.random() < 0.15:
                    nm += "+REWRITABLE_JUMP"
                L = p.newlabel()
                if d[0] == "r":
                    self.setdst(d[1], w)
                p.both("op2cmpz %s %s %s %s %d" % (nm, p.text_of(d), p.text_of(s1), p.text_of(s2), L),
                       ["op2cmpz", n, w, t, 1 if iz else 0, p.json_of(d), p.json_of(s1), p.json_of(s2), p.ref(L)])
                self.flags = (0, t, w, is32, n[:3], "cmpz") if t else None
                self.skip(L)
                return
        self.flags = (z, t, w, is32, n[:3], kind)

    def skip(self, L):
        """code which is jumped over; ends with the label"""
        rng, p = self.rng, self.p
        fl = self.flags
        self.hold = set()
        kind0, lset0 = list(p.kind), set(self.lset)
        if fl and fl[1] and rng.random() < 0.5 and len(fl) > 5:
            self.consume(nojump=True)       # the flag is available where it falls through
            if self.flags is not fl:
                fl = None
        c = [i for i in range(p.nr) if p.kind[i] == "w" and i not in self.pins]
        for _ in range(rng.randrange(1, 3)):
            if c:
                r = rng.choice(c)
                u = r in self.unobs
                self.movi(r, rval(rng, 8 * p.w))
                if u:
                    self.unobs.add(r)
        p.kind = [a if a == b else "0" for a, b in zip(kind0, p.kind)]
        self.lset &= lset0
        p.label(L)
        if fl and (fl[0] or fl[1]) and rng.random() < 0.7:
            self.scf(fl)
            self.flags = fl
        else:
            self.flags = None

    def scf(self, fl):
        z, t, w, is32, n = fl[:5]
        f = (["Z"] if z else []) + (["F." + t] if t else []) + (["CF.32"] if is32 else [])
        if n in ("ADD", "SUB"):
            f.append("CF." + n)
            if n == "SUB" and fl[5] == "op2u":
                f.append("CF.COMPARE")
        if fl[5] == "cmpz":
            f.append("CF.OP2CMPZ")
        self.p.both("scf " + "+".join(f), ["scf"])

    def cond(self):
        z, t = self.flags[0], self.flags[1]
        c = (CONDS["Z"] if z else []) + (CONDS[t] * 2 if t else [])
        return self.rng.choice(c)

    def consume(self, nojump=False, kind=None):
        rng, p = self.rng, self.p
        self.hold = set()
        if not self.flags or not (self.flags[0] or self.flags[1]):
            self.flags = None
            return
        c = self.cond()
        k = kind or rng.choice(["opf", "opf", "opl", "sel", "sel", "jmp"] if not nojump else ["opf", "opl", "sel"])
        w = rng.choice([p.w, 4])
        is32 = w < p.w
        if k == "opf":
            if rng.random() < 0.25:
                d = self.mem(w, True)
            else:
                d = ("r", self.dstreg())
            p.both("opf %s %s %s" % ("MOV32" if is32 or (p.w == 4 and rng.random() < .3) else "MOV", p.text_of(d), c), ["opf", "MOV", w, 0, p.json_of(d), c])
            if d[0] == "r":
                self.setdst(d[1], w)
        elif k == "opl":
            n = rng.choice(["AND", "OR", "XOR"])
            z = 1 if rng.random() < 0.4 else 0
            if rng.random() < 0.25:
                d = self.mem(w, True)
                iv = rng.choice([0, 1, 2, 0xff, (1 << (8 * w)) - 1, rval(rng, 8 * w)])
                iv = sx(iv, 32) if is32 else iv
                nm = "MOV32" if w < p.w else "MOV"
                p.both("op1 %s %s %s" % (nm, p.text_of(d), p.text_of(("i", iv))), ["op1", nm, w, p.json_of(d), p.json_of(("i", iv))])
            else:
                r = self.dstreg()
                iv = rng.choice([0, 1, 2, 0xff, (1 << (8 * w)) - 1, rval(rng, 8 * w)])
                self.movi(r, sx(iv, 32) if is32 else iv, w)
                d = ("r", r)
            p.both("opf %s %s %s" % (opname(n, is32 or (p.w == 4 and rng.random() < .2)) + ("+Z" if z else ""), p.text_of(d), c), ["opf", n, w, z, p.json_of(d), c])
            if d[0] == "r":
                self.setdst(d[1], w)
            self.flags = (1, "", w, is32, "OPF", "opf") if z else None
            if z and rng.random() < 0.6:
                self.consume(nojump)
                if not nojump:
                    self.flags = None
        elif k == "sel":
            s1 = self.src_noflags(w)
            cc = self.regs(w)
            if not cc:
                return
            s2 = rng.choice(cc)
            d = self.dstreg([s2] + ([s1[1]] if s1[0] == "r" else []))
            if (s1[0] == "r" and p.kind[s1[1]] != p.kind[s2]) or p.kind[s2] != ("w" if w == p.w else "4"):
                return
            p.both("sel %s %s %s %s" % (c + ("+32" if is32 else ""), p.reg(d), p.text_of(s1), p.reg(s2)), ["sel", c, w, d + 1, p.json_of(s1), s2 + 1])
            self.setdst(d, w)
            if "CARRY" in c:
                self.flags = None        # a carry can be used by one select or jump
        else:
            L = p.newlabel()
            if "CARRY" in c:
                self.flags = None
            p.both("jmp %s %d" % (c + ("+REWRITABLE_JUMP" if rng.random() < 0.15 else ""), L), ["jmp", c, p.ref(L)])
            self.skip(L)

    def cmpjump(self):
        rng, p = self.rng, self.p
        self.hold = set()
        w = rng.choice([p.w, 4])
        a, b = self.pair(w)
        f1, f2 = rng.choice(["ri", "rr", "rr", "ri", "ir", "rm", "mr", "mi", "im", "mm", "ii"])
        s1 = self.place(a, w, f1)
        s2 = s1 if a == b and f1 == f2 == "r" and rng.random() < 0.3 else self.place(b, w, f2)
        if rng.random() < 0.15 and w == p.w:
            s2 = ("i", 0)
        c = rng.choice(CMPS)
        L = p.newlabel()
        nm = c + ("+32" if w < p.w or rng.random() < 0.1 and p.w == 4 else "") + ("+REWRITABLE_JUMP" if rng.random() < 0.15 else "")
        p.both("cmp %s %s %s %d" % (nm, p.text_of(s1), p.text_of(s2), L), ["cmp", c, w, p.json_of(s1), p.json_of(s2), p.ref(L)])
        self.flags = None
        self.skip(L)

    def between(self):
        """something that keeps the flags"""
        rng = self.rng
        c = rng.random()
        self.hold = set()
        if c < 0.6:
            self.op1(rng.choice(OP1MOV))
        elif c < 0.8:
            self.sync()
        else:
            L = self.p.newlabel()
            fl = self.flags
            self.p.both("jmp JUMP %d" % L, ["jmp", "JUMP", self.p.ref(L)])
            self.p.label(L)
            if fl and len(fl) > 5 and (fl[0] or fl[1]):
                self.scf(fl)
            else:
                self.flags = None


def c02_random(w, n, seed, per=4, tag="rnd"):
    rng = random.Random(seed * 7 + 2)
    pats = makepats(rng)
    out = []
    for k in range(n):
        p, g = newprog("C02-%s-%d-%d" % (tag, w, k), w, rng, pats, gen=FlagGen)
        for _ in range(per):
            c = rng.random()
            if c < 0.18:
                g.cmpjump()
            elif c < 0.26:
                g.hold = set()
                nm = rng.choice(["ADD", "SUB"])
                ow = rng.choice([w, 4])
                g.op2(nm, ow, flags=("", "CARRY"))
                for _ in range(rng.randrange(1, 4)):
                    g.op2(nm + "C", ow, flags=("", "CARRY"))
                g.flags = g.flags + ("op2",)
                g.consume()
            else:
                g.producer()
                if rng.random() < 0.3:
                    g.between()
                g.consume()
                if rng.random() < 0.5:
                    if rng.random() < 0.3:
                        g.between()
                    g.consume()
            if rng.random() < 0.7:
                g.hold = set()
                g.sync()
            g.flags = None
        g.hold = set()
        out.append(finish(p, g))
    return out


def c02_edges(w, seed, npairs=4, tag="edge"):
    """every flag producing operation x flag x operand form x destination kind, with edge operands; each followed by consumers"""
    rng = random.Random(seed * 11 + 3)
    pats = makepats(rng)
    cases = []
    for ow in ((8, 4) if w == 8 else (4,)):
        bits = 8 * ow
        m = (1 << bits) - 1
        edges = [0, 1, m, m - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << (bits - 1)) + 1]
        for n in ("ADD", "SUB", "AND", "OR", "XOR"):
            for z, t in [(1, "")] + [(z, t) for t in FLAGTYPES.get(n, []) for z in (0, 1)]:
                for f in ("rr", "ri", "ir", "mr", "rm", "mi", "im", "mm"):
                    for kind in ("op2u", "new", "s1", "s2", "mem"):
                        if kind in ("s1", "s2") and f[int(kind[1]) - 1] == "i":
                            continue
                        for _ in range(npairs):
                            a, b = rng.choice(edges), rng.choice(edges + [rng.choice(pats[bits])])
                            c = rng.random()
                            if c < 0.45:
                                a = rng.choice([m >> 1, (m >> 1) + 1] * 3 + [0, m, 1])
                                b = rng.choice([1, -1, 1, -1, 2, -2, rng.randrange(-130, 130), 1 << (bits - 1)]) & m
                                if f[0] == "i":
                                    a, b = b, a
                            elif c < 0.55:
                                b = a
                            cases.append((ow, n, z, t, f, kind, a, b))
    rng.shuffle(cases)
    out, per = [], 7
    for k in range(0, len(cases), per):
        p, g = newprog("C02-%s-%d-%d" % (tag, w, k), w, rng, pats, gen=FlagGen)
        for ow, n, z, t, f, kind, a, b in cases[k:k + per]:
            g.hold = set()
            is32 = ow < w
            s1, s2 = g.place(a, ow, f[0]), g.place(b, ow, f[1])
            nm = opname(n, is32) + ("+Z" if z else "") + ("+F." + t if t else "")
            if kind == "op2u":
                p.both("op2u %s %s %s" % (nm, p.text_of(s1), p.text_of(s2)), ["op2u", n, ow, z, t, p.json_of(s1), p.json_of(s2)])
            else:
                d = s1 if kind == "s1" else s2 if kind == "s2" else g.mem(ow, True) if kind == "mem" else ("r", g.dstreg())
                p.both("op2 %s %s %s %s" % (nm, p.text_of(d), p.text_of(s1), p.text_of(s2)),
                       ["op2", n, ow, z, t, p.json_of(d), p.json_of(s1), p.json_of(s2)])
                if d[0] == "r":
                    g.setdst(d[1], ow)
            cs = (["EQUAL", "NOT_EQUAL"] if z else []) + (CONDS[t] if t else [])
            for c in rng.sample(cs, min(2, len(cs))):
                g.hold = set()
                d = g.dstreg()
                p.both("opf %s %s %s" % (rng.choice(["MOV", "MOV32"]) if w == 4 else "MOV", p.reg(d), c), ["opf", "MOV", w, 0, p.json_of(("r", d)), c])
                g.setdst(d, w)
            g.flags = None
            if rng.random() < 0.4:
                g.sync()
        g.hold = set()
        out.append(finish(p, g))
    return out
