"""C03: programs about memory operands"""
import random
from lirgen import *

OFFS = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 60, 63, 64, 124, 127, 128, 248, 252, 255, 256, 504, 508, 512, 1016, 1020, 1024, 2047, 2048, 2040, 4092, 4095, 4096, 4088, 8190, 8192,
        16380, 16384, 32760, 32764, 32767, 32768, 65528, 65532, 65535, 65536, 0x7ffff, 0x80000, 0xfffff, 0x100000, 0x1000000, 0x7ffff7ff, 0x7ffff800, 0x7fff7fff, 0x7fff8000, 0x7fffffff, 0x7ffffffe,
        0x12345678, 0xffe, 0xfff000, 0xabc00, 0xabcdef]


class MemGen(FlagGen):
    """anybase: registers other than BASEREGS can be used in addresses; unal: unaligned accesses"""
    def __init__(self, p, rng, pats):
        super().__init__(p, rng, pats)
        self.anybase, self.unal, self.lb = False, False, False
        self.edge = False

    def near(self, size):
        """offsets around the limits of immediate operands"""
        rng = self.rng
        b = 1 << rng.choice([7, 8, 9, 10, 11, 11, 11, 12, 12, 13, 14, 15, 15, 16, 20, 31])
        o = b * rng.choice([1, 1, 1, 2, 3, 3, 5, rng.randrange(1, 64)])
        o += rng.choice([0, -size, -size // 2, size, size // 2, -1, 1, -4, -8, rng.randrange(-2 * size, size)])
        return o if rng.random() < 0.6 else -o

    def offset(self, size):
        rng = self.rng
        if self.edge:
            return self.near(size)
        c = rng.random()
        bits = 8 * self.p.w
        if c < 0.55:
            o = rng.choice(OFFS) + rng.choice([0, 0, 0, -1, 1, -size, size])
            if rng.random() < 0.5:
                o = -o
        elif c < 0.75:
            o = rng.randrange(-300, 300)
        elif c < 0.9:
            o = rng.choice([1, -1]) * rng.getrandbits(rng.randrange(1, 33))
        else:
            o = rng.getrandbits(bits)
        return o

    def target(self, size, align, dst=False):
        """an address inside the buffers"""
        rng, p = self.rng, self.p
        if p.w == 8 and rng.random() < 0.25:
            b, n = H, HSZ
        else:
            b, n = D, DSZ
        c = rng.random()
        if c < 0.5:
            o = 0x800 + rng.randrange(64)
        elif c < 0.58:
            o = n - size if rng.random() < 0.75 else 0      # next to inaccessible memory
        else:
            o = rng.randrange(n - size + 1)
        a = b + o
        return a - a % align if not (self.unal and rng.random() < 0.7) else a

    def bases(self, avoid=()):
        p = self.p
        c = [i for i in range(p.nr) if i not in self.pins and i not in avoid and i not in self.hold and i not in self.unobs and (self.anybase or p.baseable(i))]
        return c

    def addrmem(self, size, align=None, dst=False, avoid=(), noabs=False, local=True, off=None, form=None):
        """memory operand for an access of size bytes; may emit moves which set up the registers"""
        rng, p = self.rng, self.p
        align = align or size
        bits = 8 * p.w
        m = (1 << bits) - 1
        if p.local >= size and local and not noabs and rng.random() < 0.2:
            o = rng.choice([rng.randrange(0, p.local - size + 1), rng.randrange(0, min(p.local - size + 1, 64)), p.local - size])
            if self.edge:
                o = abs(self.near(size)) % (p.local - size + 1)
            o -= o % align
            ok = all(k in self.lset for k in range(o, o + size))
            if dst or ok:
                if not ok:      # (an operand chosen later may read it)
                    step = min(size, p.w) if o % min(size, p.w) == 0 else 1
                    for q in range(o, o + size, step):
                        n = {1: "MOV_U8", 2: "MOV_U16", 4: "MOV32" if p.w == 8 else "MOV", 8: "MOV"}[step]
                        v = rng.randrange(256)
                        p.both("op1 %s %s #%x" % (n, p.text_of(("l", q)), v), ["op1", n.replace("32", ""), step if step >= 4 else p.w, p.json_of(("l", q)), p.json_of(("i", v))])
                    self.lset |= set(range(o, o + size))
                return ("l", o)
        a = self.target(size, align, dst)
        form = form or rng.choice("abbbbxxx")
        if form == "a" and not noabs:
            return ("m", None, None, 0, a)
        c = self.bases(avoid)
        if len(c) < 2:
            self.sync()
            c = self.bases(avoid)
        if not c or len(c) < 2 and form == "x":
            return ("m", None, None, 0, a)
        b = rng.choice(c)
        if form != "x":
            o = self.offset(size) if off is None else off
            self.movi(b, (a - o) & m)
            self.hold.add(b)
            return ("m", b, None, 0, sx(o, bits))
        if rng.random() < 0.08:
            sh = 0
            if a % 2 == 0:
                self.movi(b, a // 2)
                self.hold.add(b)
                return ("m", b, b, 0, 0)
        x = rng.choice([r for r in c if r != b])
        sh = rng.choice([0, 0, 1, 2, 3, {1: 0, 2: 1, 4: 2, 8: 3}.get(size, 0)])
        k = rng.random()
        iv = rng.randrange(-40, 40) if k < 0.5 else rng.choice(OFFS) if k < 0.75 else rng.getrandbits(bits)
        self.movi(x, iv & m)
        self.movi(b, (a - (iv << sh)) & m)
        self.hold |= {b, x}
        return ("m", b, x, sh, 0)

    # used by the inherited generators
    def mem(self, size, dst=False):
        return self.addrmem(size, dst=dst)

    def need(self, w, avoid=()):
        return super().need(w, tuple(avoid) + tuple(self.hold))

    def regsof(self, o):
        return [r for r in o[1:3] if r is not None] if o[0] == "m" else [o[1]] if o[0] == "r" else []

    def dreg(self, al=(), avoid=()):
        """destination register; sometimes one of the address registers"""
        if al and self.rng.random() < 0.35:
            return self.rng.choice(list(al))
        free = [i for i in range(self.p.nr) if i not in self.pins and i not in self.unobs and i not in avoid and i not in self.hold]
        if not free:
            h = self.hold
            self.sync()
            free = [i for i in range(self.p.nr) if i not in self.pins and i not in avoid and i not in h]
        return self.rng.choice(free)

    def ldst(self, n=None):
        rng, p = self.rng, self.p
        self.hold = set()
        n = n or rng.choice(OP1MOV)
        w = rng.choice([p.w, 4])
        if n in ("MOV_U32", "MOV_S32", "MOV_P"):
            w = p.w
        if n == "MOV32":
            w = 4
        if n == "MOV" and w == 4:
            n = "MOV32"
        size = MSIZE.get(n, w)
        nm = opname(n, w == 4 and p.w == 8 or (p.w == 4 and rng.random() < 0.3 and n not in ("MOV",)))
        k = rng.choice(["load", "load", "store", "store", "imm", "copy"])
        if k == "load":
            s = self.addrmem(size)
            d = ("r", self.dreg(self.regsof(s)))
        elif k == "store":
            if n in ("MOV_U32", "MOV_S32", "MOV32") and p.w == 8:
                c2 = [i for i in range(p.nr) if p.kind[i] != "0" and i not in self.pins]
                s = ("r", rng.choice(c2))
            else:
                s = ("r", self.need(w))
            self.hold = {s[1]}
            d = self.addrmem(size, dst=True)
            rs = [r for r in self.regsof(d) if r is not None]
            if rs and rng.random() < 0.25 and w == p.w:
                s = ("r", rng.choice(rs))
        elif k == "imm":
            v = rimm(rng, 8 * w, self.pats[8 * w]) if rng.random() < 0.8 else 0
            s = ("i", sx(v, 32) if w < p.w else v)
            d = self.addrmem(size, dst=True)
        else:
            s = self.addrmem(size)
            d = self.addrmem(size, dst=True) if rng.random() < 0.8 else s
        p.both("op1 %s %s %s" % (nm, p.text_of(d), p.text_of(s)), ["op1", n, w, p.json_of(d), p.json_of(s)])
        if d[0] == "r":
            self.setdst(d[1], w)

    def unary(self):
        rng, p = self.rng, self.p
        self.hold = set()
        n = rng.choice(OP1BIT)
        w = rng.choice([p.w, 4])
        if n in ("REV_U32", "REV_S32"):
            w = p.w
        size = MSIZE.get(n, w)
        s = self.addrmem(size) if rng.random() < 0.7 else ("r", self.need(w))
        self.hold |= set(self.regsof(s))
        d = self.addrmem(size if n.startswith("REV_") else w, dst=True) if rng.random() < 0.5 or s[0] == "r" else ("r", self.dreg(self.regsof(s)))
        nm = opname(n, w == 4 and p.w == 8)
        p.both("op1 %s %s %s" % (nm, p.text_of(d), p.text_of(s)), ["op1", n, w, p.json_of(d), p.json_of(s)])
        if d[0] == "r":
            self.setdst(d[1], w)
        self.flags = None

    def binary(self, u=False):
        rng, p = self.rng, self.p
        self.hold = set()
        n = rng.choice([o for o in OP2 if o not in ("ADDC", "SUBC")])
        w = rng.choice([p.w, p.w, 4])
        is32 = w < p.w
        f = rng.choice(["mr", "rm", "mi", "im", "mm", "rr", "ri"])
        ops = []
        for i in (0, 1):
            if f[i] == "i":
                v = rng.randrange(1, 8 * w) if n in SHIFTS and i else rimm(rng, 8 * w, self.pats[8 * w])
                ops.append(("i", sx(v, 32) if is32 else v))
            elif f[i] == "r" or (n in UNMASKED and i == 1):
                r = self.need(w, avoid=tuple(self.hold))
                if n in UNMASKED and i == 1:
                    r = self.dreg(avoid=(r,))
                    self.movi(r, rng.randrange(0, 8 * w), w)
                self.hold.add(r)
                ops.append(("r", r))
            else:
                ops.append(self.addrmem(w))
        s1, s2 = ops
        if any(s[0] == "r" and p.kind[s[1]] != ("w" if w == p.w else "4") for s in ops):
            return
        z = 1 if n in ZOPS and (rng.random() < 0.25 or u) else 0
        t = ""
        if n in FLAGTYPES and rng.random() < 0.25:
            t = rng.choice(FLAGTYPES[n])
        nm = opname(n, is32) + ("+Z" if z else "") + ("+F." + t if t else "")
        if u and (z or t):
            p.both("op2u %s %s %s" % (nm, p.text_of(s1), p.text_of(s2)), ["op2u", n, w, z, t, p.json_of(s1), p.json_of(s2)])
            self.flags = (z, t, w, is32, n[:3], "op2u")
            return
        c = rng.random()
        ms = [s for s in ops if s[0] in "lm"]
        if ms and c < 0.35:
            d = rng.choice(ms)
            if d[0] == "l":
                pass
        elif c < 0.65 or f in ("rr", "ri"):
            d = self.addrmem(w, dst=True)
        else:
            d = ("r", self.dreg([r for s in ops for r in self.regsof(s)]))
        p.both("op2 %s %s %s %s" % (nm, p.text_of(d), p.text_of(s1), p.text_of(s2)), ["op2", n, w, z, t, p.json_of(d), p.json_of(s1), p.json_of(s2)])
        if d[0] == "r":
            self.setdst(d[1], w)
        self.flags = (z, t, w, is32, n[:3], "op2") if z or t else None

    def memop(self):
        """sljit_emit_mem"""
        rng, p = self.rng, self.p
        self.hold = set()
        pair = rng.random() < (0.6 if self.edge else 0.4)
        n = "MOV" if pair else rng.choice(OP1MOV)
        w = p.w
        if n == "MOV32":
            w = 4
        if not pair and n in ("MOV_U8", "MOV_S8", "MOV_U16", "MOV_S16"):
            w = rng.choice([p.w, 4])
        size = MSIZE.get(n, w)
        al = ["MEM_UNALIGNED"]
        if size >= 4:
            al.append("MEM_ALIGNED_16")
        if size == 8 or n in ("MOV", "MOV_P"):
            al.append("MEM_ALIGNED_32")
        if pair:
            al.append("")
        al = rng.choice(al)
        align = {"MEM_UNALIGNED": 1, "MEM_ALIGNED_16": 2, "MEM_ALIGNED_32": 4, "": size}[al]
        store = rng.random() < 0.5
        nm = opname(n, w == 4 and p.w == 8) + ("+" + al if al else "") + ("+MEM_STORE" if store else "")
        if pair:
            rs = []
            if store:
                for _ in range(2):
                    rs.append(self.need(p.w, avoid=tuple(rs)))
                if p.kind[rs[0]] != "w" or p.kind[rs[1]] != "w":
                    return
                self.hold = set(rs)
            u, self.unal = self.unal, self.unal and al != ""
            mo = self.addrmem(2 * size, align, dst=store)
            self.unal = u
            ar = self.regsof(mo)
            if store:
                if ar and rng.random() < 0.25:
                    k = rng.randrange(2)
                    x = rng.choice(ar)
                    if rs[1 - k] != x:
                        rs[k] = x
            else:
                rs = [self.dreg(ar)]
                self.hold.add(rs[0])
                while len(rs) < 2:
                    x = self.dreg(ar)
                    if x not in rs:
                        rs.append(x)
            p.both("mem %s P%s:%s %s" % (nm, p.reg(rs[0]), p.reg(rs[1]), p.text_of(mo)), ["mem", n, w, 1 if store else 0, ["p", rs[0] + 1, rs[1] + 1], p.json_of(mo)])
            if not store:
                for x in rs:
                    self.setdst(x, p.w)
            return
        if store:
            if n in ("MOV_U32", "MOV_S32", "MOV32") and p.w == 8:
                r = rng.choice([i for i in range(p.nr) if p.kind[i] != "0" and i not in self.pins])
            else:
                r = self.need(w)
            self.hold = {r}
        mo = self.addrmem(size, align, dst=store)
        ar = self.regsof(mo)
        if not store:
            r = self.dreg(ar)
        elif ar and rng.random() < 0.2 and w == p.w:
            r = rng.choice(ar)
        p.both("mem %s %s %s" % (nm, p.reg(r), p.text_of(mo)), ["mem", n, w, 1 if store else 0, ["r", r + 1], p.json_of(mo)])
        if not store:
            self.setdst(r, w)

    def memupdate(self):
        rng, p = self.rng, self.p
        self.hold = set()
        n = rng.choice(OP1MOV)
        w = p.w
        if n == "MOV32":
            w = 4
        if n in ("MOV_U8", "MOV_S8", "MOV_U16", "MOV_S16"):
            w = rng.choice([p.w, 4])
        size = MSIZE.get(n, w)
        store = rng.random() < 0.5
        pre = rng.random() < 0.5
        r = self.need(w) if store else self.dreg()
        self.hold.add(r)
        off = rng.choice([0, 1, -1, 4, 8, -8, 16, 64, 127, 128, 255, -255, 256, -256, -257, 2047, 2048, 4095, -4095, 4096, 32760, -32768, 32767, 8 * 17, 3]) if rng.random() < 0.8 else rng.randrange(-300, 300)
        if n in ("MOV_S32", "MOV") and rng.random() < 0.5:
            off -= off % 4
        mo = self.addrmem(size, noabs=True, off=off, form=rng.choice("bbx"))
        if mo[0] != "m" or mo[1] is None or mo[1] == mo[2]:
            return
        b = mo[1]
        if mo[2] is not None and mo[2] == r:
            return
        m = (1 << (8 * p.w)) - 1
        if not pre:
            # the access uses the base alone
            a = self.target(size, size)
            self.movi(b, a)
        k = len(p.jins) + 1
        nm = opname(n, w == 4 and p.w == 8) + ("+MEM_STORE" if store else "") + ("" if pre else "+MEM_POST")
        p.both("?%d memu %s %s %s" % (k, nm, p.reg(r), p.text_of(mo)), ["memu", n, w, 1 if store else 0, 1 if pre else 0, r + 1, p.json_of(mo)])
        self.unobs.add(b)
        if not store:
            # when it is not supported the register keeps its value: only a full word is safe to look at
            u = p.kind[r]
            if u == "w" and w == p.w:
                self.unobs.add(r)
            else:
                self.p.kind[r] = "0"
                self.unobs.discard(r)

    def fmove(self):
        rng, p = self.rng, self.p
        self.hold = set()
        if not p.nf:
            return
        w = rng.choice([8, 4])
        u, self.unal = self.unal, False
        k = rng.choice(["mov", "mov", "copy", "fmem", "fmem", "fmemu"])
        f = rng.randrange(p.nf)
        if k == "mov" or k == "copy":
            store = rng.random() < 0.5
            al = w
            mo = self.addrmem(w, al, dst=store and k == "mov")
            fo = ("f", f) if k == "mov" else None
            nm = "MOV_F64" if w == 8 else "MOV_F32"
            if k == "copy":
                m2 = self.addrmem(w, al, dst=True)
                d, s = m2, mo
            else:
                d, s = (mo, fo) if store else (fo, mo)
                if store and p.fkind[f] != str(w):
                    self.unal = u
                    return
            p.both("fop1 %s %s %s" % (nm, p.text_of(d), p.text_of(s)), ["fop1", "MOV", w, p.json_of(d), p.json_of(s)])
            if d[0] == "f":
                p.fkind[f] = "8" if w == 8 else "4"
        else:
            store = rng.random() < 0.5
            if store and p.fkind[f] != str(w):
                self.unal = u
                return
            nm = ("MOV_F64" if w == 8 else "MOV_F32")
            if k == "fmem":
                al = rng.choice([("MEM_UNALIGNED", 1), ("MEM_ALIGNED_16", 2)] + ([("MEM_ALIGNED_32", 4)] if w == 8 else []))
                mo = self.addrmem(w, al[1], dst=store)
                p.both("fmem %s %s %s" % (nm + "+" + al[0] + ("+MEM_STORE" if store else ""), p.freg(f), p.text_of(mo)), ["fmem", w, 1 if store else 0, f + 1, p.json_of(mo)])
                if not store:
                    p.fkind[f] = "8" if w == 8 else "4"
            else:
                pre = rng.random() < 0.5
                off = rng.choice([0, 1, -1, 4, 8, -8, 16, 64, 127, 128, 255, -255, 256, -256, 1020, 4092])
                mo = self.addrmem(w, noabs=True, off=off, form=rng.choice("bbx"))
                if mo[0] == "m" and mo[1] is not None and mo[1] != mo[2]:
                    if not pre:
                        self.movi(mo[1], self.target(w, w))
                    p.both("?%d fmemu %s %s %s" % (len(p.jins) + 1, nm + ("+MEM_STORE" if store else "") + ("" if pre else "+MEM_POST"), p.freg(f), p.text_of(mo)),
                           ["fmemu", w, 1 if store else 0, 1 if pre else 0, f + 1, p.json_of(mo)])
                    self.unobs.add(mo[1])
                    if not store:
                        p.fkind[f] = "8" if w == 8 and p.fkind[f] == "8" else "0"
        self.unal = u

    def lbase(self):
        """address of a local, then accesses through it"""
        rng, p = self.rng, self.p
        self.hold = set()
        c = self.bases()
        if not p.local or not c or not self.lb:
            return
        if self.flags and (self.flags[0] or self.flags[1]):
            return
        b = rng.choice(c)
        k = rng.choice([0, 8, p.local // 2, p.local, -8, 4096, 70000, rng.randrange(p.local)])
        p.both("lbase %s %s" % (p.reg(b), p.hx(k)), ["lbase", p.json_of(("r", b)), word(k, p.w)])
        p.kind[b] = "w"
        self.hold.add(b)
        for _ in range(rng.randrange(1, 3)):
            if p.local < p.w:
                break
            o = rng.randrange(0, p.local // p.w) * p.w
            s = self.need(p.w, avoid=(b,))
            mo = ("m", b, None, 0, o - k)
            p.both("op1 MOV %s %s" % (p.text_of(mo), p.reg(s)), ["op1", "MOV", p.w, p.json_of(mo), p.json_of(("r", s))])
            self.lset |= set(range(o, o + p.w))
            d = self.dreg(avoid=(b,))
            p.both("op1 MOV %s %s" % (p.reg(d), p.text_of(("l", o))), ["op1", "MOV", p.w, p.json_of(("r", d)), p.json_of(("l", o))])
            self.setdst(d, p.w)

    def misc(self):
        rng, p = self.rng, self.p
        self.hold = set()
        w = rng.choice([p.w, 4])
        c = rng.random()
        if c < 0.3:
            mo = self.addrmem(1)
            n = rng.choice(["PREFETCH_L1", "PREFETCH_L2", "PREFETCH_L3", "PREFETCH_ONCE"])
            p.both("ops %s %s" % (n, p.text_of(mo)), ["prefetch"])
        elif c < 0.6:
            s1, s2 = self.need(w), self.need(w)
            self.hold = {s1, s2}
            mo = self.addrmem(w)
            nn = rng.choice(["MSHL", "MLSHR"])
            d = self.dreg([r for r in [s1] + self.regsof(mo) if r != s2], avoid=(s2,))
            if d == s2 or p.kind[s1] != ("w" if w == p.w else "4") or p.kind[s2] != p.kind[s1]:
                return
            p.both("shi %s %s %s %s %s" % (opname(nn, w < p.w), p.reg(d), p.reg(s1), p.reg(s2), p.text_of(mo)), ["shi", nn, w, d + 1, s1 + 1, s2 + 1, p.json_of(mo)])
            self.setdst(d, w)
            self.flags = None
        elif c < 0.8:
            d = self.need(w)
            if d in self.unobs:
                self.sync()
            self.hold = {d}
            s1 = self.addrmem(w)
            s2 = self.addrmem(w) if rng.random() < 0.5 else ("i", rimm(rng, 8 * w, self.pats[8 * w]))
            if s2[0] == "i" and w < p.w:
                s2 = ("i", sx(s2[1], 32))
            if rng.random() < 0.5:
                s1, s2 = s2, s1
            if p.kind[d] != ("w" if w == p.w else "4"):
                return
            p.both("op2r %s %s %s %s" % (opname("MULADD", w < p.w), p.reg(d), p.text_of(s1), p.text_of(s2)), ["op2r", "MULADD", w, d + 1, p.json_of(s1), p.json_of(s2)])
            self.setdst(d, w)
            self.flags = None
        else:
            self.lbase()


def memprog(pid, w, rng, pats, anybase, unal, lb=None, fl=None):
    sv = rng.choice([6, 6, 5, 4, 3])
    sc = 12 - sv if anybase or rng.random() < 0.7 else 6
    local = rng.choice([0, 16, 64, 256, 256, 1000, 5008, 40000])
    fsc = rng.choice([0, 3, 6])
    p = Prog(pid, w, sc, sv, fsc=fsc, local=local, enter=True)
    g = MemGen(p, rng, pats)
    g.anybase, g.unal = anybase, unal
    p.allbase, p.unal = anybase, unal
    for i in range(p.nr):
        p.init[i] = rval(rng, 8 * w)
    p.finit = [rng.getrandbits(64) & ~(0x7ff << 52) | rng.randrange(1, 0x7fe) << 52 for _ in range(p.nf)]
    if local and rng.random() < 0.4:
        g.lb = True
        p.wantlb = True
        p.t("lbase @%x 0" % LBLOG)
    return p, g


def c03_random(w, n, seed, per=9, tag="rnd"):
    rng = random.Random(seed * 13 + 5)
    pats = makepats(rng)
    out = []
    for k in range(n):
        c = k % 8
        anybase = c in (1, 2, 5) if w == 4 else True
        unal = c in (2, 6)
        p, g = memprog("C03-%s-%d-%d" % (tag, w, k), w, rng, pats, anybase, unal)
        for _ in range(per):
            c = rng.random()
            if c < 0.3:
                g.ldst()
            elif c < 0.38:
                g.unary()
            elif c < 0.53:
                g.binary()
            elif c < 0.68:
                g.memop()
            elif c < 0.78:
                g.memupdate()
            elif c < 0.86:
                g.fmove()
            elif c < 0.93:
                g.misc()
            else:
                g.binary(u=True)
                if g.flags:
                    for _ in range(rng.randrange(1, 4)):
                        rng.choice([g.ldst, g.memop, g.memupdate, g.fmove])()
                    g.consume(nojump=True)
                g.flags = None
            if rng.random() < 0.15:
                g.hold = set()
                g.sync()
        g.hold = set()
        g.flags = None
        if p.nf:
            p.obs("f")
        out.append(finish(p, g))
    return out


def c03_edges(w, n, seed, per=20):
    """offsets around the limits of the immediate operands"""
    rng = random.Random(seed * 17 + 3)
    pats = makepats(rng)
    out = []
    for k in range(n):
        p, g = memprog("C03-edge-%d-%d" % (w, k), w, rng, pats, w == 8, k % 3 == 0)
        g.edge = True
        for _ in range(per):
            rng.choice([g.memop, g.memop, g.memop, g.ldst, g.fmove, g.memupdate])()
            if rng.random() < 0.15:
                g.hold = set()
                g.sync()
        g.hold = set()
        g.flags = None
        if p.nf:
            p.obs("f")
        out.append(finish(p, g))
    return out


def applies(p, A):
    if p.allbase and A.virt:
        return False
    if p.unal and A.base in ("armv6", "mips32el", "mips64el"):
        return False
    return True
