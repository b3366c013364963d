"""Programs of several functions: every calling convention, argument list, frame size, tail call, return to an
address, calls of C functions and from C functions."""
import random
from lirgen import Prog, word, rval, D, BASEREGS

M64 = (1 << 64) - 1
OFFSET_STEP = 1114112
RETC = {"d": 0x4012345678abcdef, "f": 0x41234567, "w": 0x9182736455463728, "4": 0x98badcfe}


def argconst(t, k):
    if t == "d":
        return (0x3ff0000012345678 + k * 0x0011223344556677) & M64
    if t == "f":
        return (0x3f812345 + k * 0x00212121) & 0xffffffff
    if t == "4":
        return (0x89abcdef + k * 0x11111111) & 0xffffffff
    return (0xf0e1d2c3b4a59687 + k * 0x0102030405060708) & M64


class CProg(Prog):
    def __init__(self, pid, w, prof, ret):
        Prog.__init__(self, pid, w, sc=prof[0], sv=0, fsc=prof[2], fsv=0, ret=ret, enter=False)
        self.prof = prof
        self.init, self.finit = [], []
        self.frags = []
        self.cur = None
        self.wantaddr = True
        self.used = set()

    # fragments of code, placed later
    def open(self):
        f = dict(lines=[], jins=[], src=[], labs={}, lay=None)
        self.frags.append(f)
        old, self.cur = self.cur, f
        self.lines, self.jins, self.src = f["lines"], f["jins"], f["src"]
        return old

    def close(self, old):
        self.cur = old
        if old:
            self.lines, self.jins, self.src = old["lines"], old["jins"], old["src"]

    def label(self, l):
        self.both("label %d" % l, ["label"])
        self.cur["labs"][l] = len(self.jins)

    def link(self, rng):
        rest = self.frags[1:]
        rng.shuffle(rest)
        self.lines, self.jins, self.src = [], [], []
        for f in [self.frags[0]] + rest:
            for l, k in f["labs"].items():
                self.labpos[l] = len(self.jins) + k
                self.laborder.append(l)
            self.lines += f["lines"]
            self.jins += f["jins"]
            self.src += f["src"]

    def text(self):
        t = Prog.text(self)
        return t.replace("\nR ", "\nC\nR ", 1)

    def json(self):
        self.init, self.finit = [0] * self.prof[0], [0] * self.prof[2]
        self.regions = [[word(D, self.w), 0x3000, 17], [word(0x70000000, self.w), 16, 91], [[0] * self.w, 16777215, -1]]
        s = Prog.json(self)
        self.init, self.finit = [], []
        # everything is undefined at the start
        i = s.index('"init":')
        j = s.index('"vinit":')
        return s[:i] + '"init":[%s],"finit":[%s],' % (",".join(["[]"] * self.prof[0]), ",".join(["[]"] * self.prof[2])) + s[j:]


class Fn:
    pass


class Func:
    """emits one function"""
    def __init__(self, p, rng, depth, conv, keep, args, ret, kin=None, role="normal"):
        self.p, self.rng, self.depth, self.conv, self.keep, self.args, self.ret, self.role = p, rng, depth, conv, keep, args, ret, role
        N, NS, NF, NFS = p.prof
        self.N, self.NF = N, NF
        self.virt = True
        nargs = [a for a in args if a not in "df"]
        nf = len(args) - len(nargs)
        saved = sum(a in "w4" for a in args) if conv == "call" else 0
        minsc = max([k + 1 for k, a in enumerate(nargs) if conv == "reg" or a in "W5"] + [1 if ret in ("w", "4") else 0])
        # the arguments of calls need scratch registers
        self.sv = rng.randrange(max(saved, keep), NS + 1) if rng.random() < 0.7 else rng.choice([max(saved, keep), NS])
        hi = N - self.sv
        self.sc = max(minsc, rng.choice([1, 2, 3, 4, hi, hi, rng.randrange(0, hi + 1)]))
        self.sc = min(self.sc, hi)
        if self.sc < minsc:
            self.sv = N - minsc
            self.sc = minsc
        self.fsv = rng.choice([0, rng.randrange(0, NFS + 1), NFS])
        self.fsc = max(nf, 1 if ret in ("d", "f") else 0, rng.choice([0, 1, 3, min(4, NF - self.fsv), NF - self.fsv, NF - self.fsv]))
        self.fsc = min(self.fsc, NF - self.fsv)
        if role == "main":
            self.sc, self.fsc = max(self.sc, 4), max(self.fsc, 4)
            self.sv = min(self.sv, N - self.sc)
            self.fsv = min(self.fsv, NF - self.fsc)
        w = p.w
        self.local = rng.choice([0, 0, 4, 8, 16, 20, 24, 40, 128, 136, 250, 504, 512, 1000, 2040, 2048, 4088, 4096, 4104, 0x7ff0, 0x7ff8, 0x8000, 0x8008, 65536, 0x40000])
        if rng.random() < 0.02:
            self.local = 1048576
        self.kind = {i: "0" for i in range(1, N + 1)}
        self.fk = {i: "0" for i in range(1, NF + 1)}
        self.known = {}                  # local offset -> kind
        if kin:
            for i in range(N - keep + 1, N + 1):
                self.kind[i] = kin.get(i, "0")
        wn = fn = sn = 0
        for a in args:
            if a in "df":
                fn += 1
                self.fk[fn] = "8" if a == "d" else "4"
            else:
                wn += 1
                if conv == "reg" or a in "W5":
                    self.kind[wn] = "w" if a in "wW" else "4"
                else:
                    sn += 1
                    self.kind[N - sn + 1] = "w" if a in "wW" else "4"
        self.lab = p.newlabel()
        self.obsok = True

    def name(self, i):
        return "r%d" % (i - 1) if i <= self.sc else "s%d" % (self.N - i)

    def fname(self, i):
        return "f%d" % (i - 1) if i <= self.fsc else "g%d" % (self.NF - i)

    def regs(self):
        return [i for i in range(1, self.N + 1) if i <= self.sc or i > self.N - self.sv]

    def fregs(self):
        return [i for i in range(1, self.NF + 1) if i <= self.fsc or i > self.NF - self.fsv]

    def ctxargs(self):
        return "%x %s:%s %d %d %d %d 0 0 %d" % ((4 | self.keep) if self.conv == "reg" else 0, self.ret,
                                                "".join({"w": "W", "4": "5"}.get(a, a) if self.conv == "reg" else a for a in self.args), self.sc, self.sv, self.fsc, self.fsv, self.local)

    def enter(self):
        self.p.label(self.lab)
        self.p.both("enter " + self.ctxargs(), ["enter", 1 if self.conv == "reg" else 0, self.keep, list(self.args), self.sc, self.sv, self.fsc, self.fsv])

    # ---- operands: (text, json)
    def r(self, i):
        return self.name(i), ["r", i]

    def f(self, i):
        return self.fname(i), ["f", i]

    def imm(self, v, n=None):
        return "#" + self.p.hx(v), ["i", word(v, self.p.w)]

    def loc(self, off):
        return "L%x" % off, ["l", off]

    def mem0(self, a):
        return "@%x" % a, ["m", 0, 0, 0, word(a, self.p.w)]

    def have(self, k="w", ge=0):
        return [i for i in self.regs() if self.kind[i] == k and i > ge]

    def slots(self, k="w"):
        return [o for o, x in self.known.items() if x == k]

    # ---- instructions
    def mov(self, d, s, op="MOV", k="w"):
        w = self.p.w if k == "w" else 4
        self.p.both("op1 %s %s %s" % (op if k == "w" else op + "32", d[0], s[0]), ["op1", op, w, d[1], s[1]])

    def fmov(self, d, s, k):
        self.p.both("fop1 MOV_F%s %s %s" % ("64" if k == "8" else "32", d[0], s[0]), ["fop1", "MOV", int(k), d[1], s[1]])

    def fset(self, i, k):
        rng = self.rng
        if k == "8":
            v = rng.getrandbits(64) & ~(0x7ff << 52) | rng.randrange(0x300, 0x500) << 52
            self.p.both("fset64 %s %x" % (self.fname(i), v), ["fset", i, word(v, 8)])
        else:
            v = rng.getrandbits(32) & ~(0xff << 23) | rng.randrange(0x40, 0xc0) << 23
            self.p.both("fset32 %s %x" % (self.fname(i), v), ["fset", i, word(v, 4)])
        self.fk[i] = k

    def setr(self, i, k="w", below=0):
        """gives register i a value; sources: immediates, registers above below, locals"""
        rng = self.rng
        c = rng.random()
        src = None
        if c < 0.4:
            h = [x for x in self.regs() if self.kind[x] == k and (x > below or x == i)]
            if h:
                src = self.r(rng.choice(h))
        elif c < 0.6:
            h = self.slots(k)
            if h:
                src = self.loc(rng.choice(h))
        if src is None:
            src = self.imm(rval(rng, 8 * (self.p.w if k == "w" else 4)))
        self.mov(self.r(i), src, k=k)
        self.kind[i] = k

    def setf(self, i, k, below=0):
        rng = self.rng
        h = [x for x in self.fregs() if self.fk[x] == k and x > below]
        if h and rng.random() < 0.5:
            self.fmov(self.f(i), self.f(rng.choice(h)), k)
            self.fk[i] = k
        else:
            self.fset(i, k)

    def alu(self):
        rng = self.rng
        h = self.have()
        rr = self.regs()
        if not rr:
            return
        if not h:
            self.setr(rng.choice(rr))
            return
        op = rng.choice(["ADD", "SUB", "XOR", "OR", "AND", "MUL"])
        d = rng.choice(rr)
        a = self.r(rng.choice(h))
        b = self.r(rng.choice(h)) if rng.random() < 0.6 else self.imm(rval(rng, 8 * self.p.w))
        self.p.both("op2 %s %s %s %s" % (op, self.name(d), a[0], b[0]), ["op2", op, self.p.w, 0, "", ["r", d], a[1], b[1]])
        self.kind[d] = "w"

    def store(self):
        w = self.p.w
        n = self.local // w
        h = self.have()
        if not n or not h:
            return
        off = self.rng.choice([0, n - 1, self.rng.randrange(n), n // 2]) * w
        for o in list(self.known):
            if o < off + 8 and off < o + 8 and o != off and (self.known[o] in "84" or o + w > off > o - w):
                del self.known[o]
        self.mov(self.loc(off), self.r(self.rng.choice(h)))
        self.known[off] = "w"

    def fill(self, n=3):
        rng = self.rng
        for i in self.regs():
            if self.kind[i] == "0" and rng.random() < 0.8:
                self.setr(i)
        for i in self.fregs():
            if self.fk[i] == "0" and rng.random() < 0.6:
                self.fset(i, rng.choice("84"))
        for _ in range(n):
            self.store()

    def check(self):
        """observes everything which is defined"""
        if not self.obsok:
            return
        p = self.p
        for o in self.slots():
            free = [i for i in self.regs() if self.kind[i] == "0"]
            if free:
                i = self.rng.choice(free)
                self.mov(self.r(i), self.loc(o))
                self.kind[i] = "w"
        m = "".join({"w": "8", "4": "4", "0": "0"}[self.kind[i] if i in self.regs() else "0"] for i in range(1, self.N + 1))
        if m.strip("0"):
            p.masks.append(("r", m))
            p.both("obs r %d" % (len(p.masks) - 1), ["obs", len(p.masks)])
        m = "".join(self.fk[i] if i in self.fregs() else "0" for i in range(1, self.NF + 1))
        if m.strip("0"):
            p.masks.append(("f", m))
            p.both("obs f %d" % (len(p.masks) - 1), ["fobs", len(p.masks)])

    def clobbered(self, ret, kept=None, keep=0):
        for i in range(1, self.N - self.sv + 1):
            self.kind[i] = "0"
        for i in range(1, self.NF - self.fsv + 1):
            self.fk[i] = "0"
        if kept is not None:
            for i in range(self.N - keep + 1, self.N + 1):
                self.kind[i] = kept.get(i, "0")
        if ret in ("w", "4"):
            self.kind[1] = ret
        elif ret in ("d", "f"):
            self.fk[1] = "8" if ret == "d" else "4"

    def pickargs(self, forenter=False, reg=False):
        """argument list which fits the scratch registers of this function"""
        rng = self.rng
        n = rng.choice([0, 1, 2, 3, 4, 4])
        out, wn, fn = [], 0, 0
        for _ in range(n):
            c = [x for x in "wwww44dddff" if (x in "df" and fn < self.fsc) or (x in "w4" and wn < self.sc)]
            if not c:
                break
            x = rng.choice(c)
            if x in "df":
                fn += 1
            else:
                wn += 1
            out.append(x)
        return out

    def pickret(self):
        c = ["v"] + (["w", "w", "4"] if self.sc else []) + (["d", "f"] if self.fsc else [])
        return self.rng.choice(c)

    def setargs(self, args):
        wn = fn = 0
        todo = []
        for a in args:
            if a in "df":
                fn += 1
                todo.append((fn, a))
            else:
                wn += 1
                todo.append((wn, a))
        for k, a in todo:
            if a in "df":
                kk = "8" if a == "d" else "4"
                if self.fk[k] != kk or self.rng.random() < 0.7:
                    self.setf(k, kk, below=k)
            else:
                kk = "w" if a in "wW" else "4"
                if self.kind[k] != kk or self.rng.random() < 0.7:
                    self.setr(k, kk, below=k)

    def target(self, nwargs, lab, fnname=None):
        """an operand which holds the address of a function; None if there is no place for it"""
        rng = self.rng
        p = self.p
        c = ["mem"]
        free = [i for i in self.regs() if i > nwargs]
        if free:
            c += ["reg", "reg", "base"]
        if self.local >= p.w:
            c += ["loc"]
        if fnname:
            c += ["imm", "imm"]
        c = rng.choice(c)

        def put(dst):
            if fnname:
                p.both("movfn %s %s" % (dst[0], fnname), ["op1", "MOV", p.w, dst[1], ["i", [-1] * p.w]])
            else:
                p.both("opaddr MOV_ADDR %s %d" % (dst[0], lab), ["opaddr", "MOV_ADDR", dst[1], lab + 1])
        if c == "imm":
            return "=" + fnname, None
        if c == "reg":
            i = rng.choice(free)
            if rng.random() < 0.4 and self.sc in free:
                i = self.sc
            put(self.r(i))
            self.kind[i] = "0"
            return self.r(i)
        if c == "loc":
            off = rng.randrange(self.local // p.w) * p.w
            for o in list(self.known):
                if o < off + 8 and off < o + 8:
                    del self.known[o]
            put(self.loc(off))
            return self.loc(off)
        a = D + 0x800 + 8 * rng.randrange(64)
        put(self.mem0(a))
        if c == "base":
            b = [i for i in free if self.name(i) in BASEREGS]
            if b:
                i = rng.choice(b)
                off = rng.choice([0, 8, 0x100, -8])
                self.mov(self.r(i), self.imm(a - off))
                self.kind[i] = "w"
                return "M%s:%s" % (self.name(i), p.hx(off)), ["m", i, 0, 0, word(off, p.w)]
        return self.mem0(a)

    def emitcall(self, conv, args, ret, lab, tail):
        rng = self.rng
        p = self.p
        ty = {"call": "CALL", "reg": "CALL_REG_ARG"}[conv] + ("+CALL_RETURN" if tail else "")
        sig = ret + ":" + "".join(args)
        if rng.random() < 0.5:
            if rng.random() < 0.3:
                ty += "+REWRITABLE_JUMP"
            p.both("call %s %s L%d" % (ty, sig, lab), ["call", 1 if tail else 0, list(args), ["t", ("L", lab)]])
        else:
            nw = sum(a not in "df" for a in args)
            t = self.target(nw, lab)
            p.both("icall %s %s %s" % (ty, sig, t[0]), ["call", 1 if tail else 0, list(args), t[1]])

    def calljit(self, tail=False):
        """calls a new function"""
        rng = self.rng
        p = self.p
        conv = self.conv if tail else rng.choice(["call", "reg"])
        ret = self.ret if tail else self.pickret()
        args = self.pickargs()
        # return_to does not remove the arguments which were passed on the stack
        onregs = p.w == 8 or conv == "reg"
        if tail and not onregs and self.exiting is not None:
            args = []
        keep = 0
        if conv == "reg":
            keep = min(rng.choice([0, 0, 1, 2, 3]), self.keep if tail else self.sv)
        eargs = args if conv == "reg" else [({"w": "W", "4": "5"}.get(a, a) if rng.random() < 0.35 else a) for a in args]
        self.setargs(args)
        exitlab = None
        mode = "normal"
        if not tail and rng.random() < 0.2 and self.sc > 0 and (onregs or not args):
            mode = "retto"
            exitlab = p.newlabel()
        kin = self.callerview() if tail else dict(self.kind)
        if not tail:
            kin = {i: (self.kind[i] if i > self.N - self.sv else "0") for i in range(1, self.N + 1)}
        sub = Func(p, rng, self.depth + 1, conv, keep, eargs, ret, kin=kin, role="normal")
        sub.exitlab = exitlab
        sub.exiting = self.exiting if tail else (exitlab if mode == "retto" else None)
        self.emitcall(conv, args, ret, sub.lab, tail)
        for i in range(self.N - keep + 1, self.N + 1):
            sub.kind[i] = self.kind[i]
        old = p.open()
        sub.body()
        p.close(old)
        if tail:
            self.endkind = sub.endkind
            self.retto_used = sub.retto_used
            # the registers kept by this function flow to the caller as the tail called function leaves them
            return sub
        if mode == "retto":
            # the next instructions are not executed
            if rng.random() < 0.5:
                self.p.both("op1 MOV @%x #1" % (D + 0x7f8), ["op1", "MOV", p.w, ["m", 0, 0, 0, word(D + 0x7f8, p.w)], ["i", word(1, p.w)]])
            p.label(exitlab)
            self.clobbered("w" if sub.r0known else "v", sub.keptkinds(), keep)
        else:
            self.clobbered(ret, sub.keptkinds(), keep)
        return sub

    def callerview(self):
        """kinds of the registers as the caller of this function sees them at a tail call"""
        v = {}
        for i in range(1, self.N + 1):
            v[i] = "0"
        for i in range(self.N - self.keep + 1, self.N + 1):
            v[i] = self.kind[i]
        return v

    def keptkinds(self):
        return self.endkind

    def callc(self, tail=False):
        rng = self.rng
        p = self.p
        args = self.pickargs()
        ret = self.ret if tail else self.pickret()
        name = "rec_%s__%s" % ("".join(args), ret)
        p.used.add(name)
        self.setargs(args)
        ty = "CALL" + ("+CALL_RETURN" if tail else "")
        sig = ret + ":" + "".join(args)
        p.masks.append(("c", "".join(args) or "0"))
        k = len(p.masks)
        rk = {"w": "int", "4": "int", "d": "float", "f": "float", "v": "none"}[ret]
        rb = word(RETC[ret], {"w": p.w, "4": 4, "d": 8, "f": 4}[ret]) if ret != "v" else []
        js = ["ccall", 1 if tail else 0, list(args), rk, rb, k]
        if rng.random() < 0.4:
            p.t("slot %d" % (k - 1))
            p.both("call %s %s %s" % (ty, sig, name), js)
        else:
            nw = sum(a not in "df" for a in args)
            t = self.target(nw, None, name)
            p.t("slot %d" % (k - 1))
            p.both("icall %s %s %s" % (ty, sig, t[0]), js)
        if not tail:
            self.clobbered(ret)

    def cinvoke(self):
        """a C function which calls a new function"""
        rng = self.rng
        p = self.p
        if self.sc < 1:
            return
        n = rng.choice([0, 1, 2, 3, 4, 4])
        args = [rng.choice("wwww44dddff") for _ in range(n)]
        if sum(a in "df" for a in args) > p.prof[2] - 1:
            return
        ret = rng.choice("vww4df")
        name = "inv_%s__%s" % ("".join(args), ret)
        p.used.add(name)
        eargs = [({"w": "W", "4": "5"}.get(a, a) if rng.random() < 0.35 else a) for a in args]
        sub = Func(p, rng, self.depth + 1, "call", 0, eargs, ret, role="normal")
        sub.exiting = None
        p.masks.append(("c", ret if ret != "v" else "0"))
        k = len(p.masks)
        p.both("opaddr MOV_ADDR r0 %d" % sub.lab, ["opaddr", "MOV_ADDR", ["r", 1], sub.lab + 1])
        p.t("slot %d" % (k - 1))
        vals = [word(argconst(a, i), {"w": p.w, "4": 4, "d": 8, "f": 4}[a]) for i, a in enumerate(args)]
        p.both("call CALL v:w %s" % name, ["cinv", eargs, vals])
        p.j(["cres", ret, k])
        old = p.open()
        sub.body()
        p.close(old)
        self.clobbered("v")

    def recursion(self):
        """recursive function: f(n) = n = 0 ? c : f(n - 1) + local n"""
        rng = self.rng
        p = self.p
        conv = rng.choice(["call", "reg"])
        if self.sc < 2 or p.w * 4 > 64:
            return
        f = Func(p, rng, self.depth + 1, conv, 0, [rng.choice("wW") if conv == "call" else "W"], "w")
        f.local = max(f.local, 64)
        if f.local > 4096:
            f.local = 4096
        f.sc, f.sv = max(f.sc, 2), max(f.sv, 1)
        if f.sc + f.sv > f.N:
            f.sv = f.N - f.sc
        argr = 1 if conv == "reg" or f.args[0] == "W" else f.N
        n = rng.randrange(1, 6)
        self.setargs(["w"])
        self.mov(self.r(1), self.imm(n))
        self.emitcall(conv, ["w"], "w", f.lab, False)
        old = p.open()
        f.enter()
        off = rng.randrange(f.local // p.w) * p.w
        f.mov(f.loc(off), f.r(argr))
        base = p.newlabel()
        svr = f.N - f.sv + 1       # the last saved register
        if svr <= f.N and svr != argr and f.sv:
            f.mov(f.r(svr), f.r(argr))
        a, z = f.r(argr), f.imm(0)
        p.both("cmp EQUAL %s %s %d" % (a[0], z[0], base), ["cmp", "EQUAL", p.w, a[1], z[1], ("L", base)])
        p.both("op2 SUB r0 %s #1" % a[0], ["op2", "SUB", p.w, 0, "", ["r", 1], a[1], ["i", word(1, p.w)]])
        f.emitcall(conv, ["w"], "w", f.lab, False)
        l = f.loc(off)
        p.both("op2 ADD r0 r0 %s" % l[0], ["op2", "ADD", p.w, 0, "", ["r", 1], ["r", 1], l[1]])
        if f.sv:
            s = f.r(svr)
            p.both("op2 MUL r0 r0 #3", ["op2", "MUL", p.w, 0, "", ["r", 1], ["r", 1], ["i", word(3, p.w)]])
            p.both("op2 XOR r0 r0 %s" % s[0], ["op2", "XOR", p.w, 0, "", ["r", 1], ["r", 1], s[1]])
        p.both("ret MOV r0", ["ret", "int", "MOV", p.w, ["r", 1]])
        p.label(base)
        v = f.imm(rng.getrandbits(30))
        p.both("ret MOV %s" % v[0], ["ret", "int", "MOV", p.w, v[1]])
        p.close(old)
        self.clobbered("w")

    def retop(self):
        """(text op, name, operand) for the return value"""
        rng = self.rng
        p = self.p
        if self.ret in "df":
            k = "8" if self.ret == "d" else "4"
            h = [i for i in self.fregs() if self.fk[i] == k]
            if not h:
                i = rng.choice(self.fregs())
                self.fset(i, k)
                h = [i]
            o = self.f(rng.choice(h))
            if rng.random() < 0.4 and self.local >= 8:
                off = rng.randrange(self.local // 8) * 8
                self.fmov(self.loc(off), o, k)
                o = self.loc(off)
            elif rng.random() < 0.3:
                m = self.mem0(D + 0x900)
                self.fmov(m, o, k)
                o = m
            return "MOV_F64" if k == "8" else "MOV_F32", ["ret", "float", "MOV", int(k), o[1]], o
        if self.ret == "w":
            name = rng.choice(["MOV", "MOV", "MOV_U8", "MOV_S8", "MOV_U16", "MOV_S16"] + (["MOV_U32", "MOV_S32"] if p.w == 8 else []))
            w = p.w
            txt = name
        else:
            name = rng.choice(["MOV", "MOV", "MOV_U8", "MOV_S8", "MOV_U16", "MOV_S16"])
            w = 4
            txt = name.replace("MOV", "MOV32")
        k = "w" if self.ret == "w" else "4"
        h = self.have(k)
        if not h:
            i = rng.choice(self.regs())
            self.setr(i, k)
            h = [i]
        c = rng.random()
        o = self.r(rng.choice(h))
        if c < 0.2:
            o = self.imm(rval(rng, 8 * p.w))
        elif c < 0.4 and self.slots() and k == "w":
            o = self.loc(rng.choice(self.slots()))
        elif c < 0.5:
            o = self.mem0(D + 8 * rng.randrange(200))
        if txt in ("MOV_U32", "MOV_S32") and False:
            pass
        return txt, ["ret", "int", name, w, o[1]], o

    def body(self):
        rng = self.rng
        p = self.p
        self.tailed, self.r0known, self.retto_used = False, False, False
        self.enter()
        self.check()
        self.fill()
        parts = rng.randrange(1, 4) if self.depth == 0 else rng.randrange(0, 3) if self.depth < 3 else 0
        if p.nlab > 60 or len(p.masks) > 90:
            parts = 0
        for _ in range(parts):
            for _ in range(rng.randrange(0, 3)):
                rng.choice([self.alu, self.store])()
            c = rng.random()
            if len(p.masks) > 100:
                break
            if c < 0.45 and self.depth < 6:
                self.calljit()
            elif c < 0.7:
                self.callc()
            elif c < 0.85 and self.depth < 6:
                self.cinvoke()
            elif c < 0.93 and self.depth < 6:
                self.recursion()
            self.check()
            self.fill(1)
            if rng.random() < 0.12:
                self.split()
        for _ in range(rng.randrange(0, 3)):
            rng.choice([self.alu, self.store])()
        if rng.random() < 0.5:
            self.check()
        self.finish()

    def split(self):
        """continues in another piece of code, with the same context"""
        p = self.p
        l = p.newlabel()
        p.both("jmp JUMP %d" % l, ["jmp", "JUMP", ("L", l)])
        p.open()
        p.both("ectx " + self.ctxargs(), ["ectx"])
        p.label(l)

    def finish(self):
        rng = self.rng
        p = self.p
        if self.role == "main":
            if self.ret == "v":
                p.t("retv")
                p.j(["end", ["none"], 0])
            else:
                txt, js, o = self.retop()
                while js[2] != "MOV" and js[1] == "int" or o[1][0] not in ("r", "f"):
                    txt, js, o = self.retop()
                p.both("ret %s %s" % (txt, o[0]), ["end", o[1], js[3]])
            self.endkind = {}
            return
        ex = getattr(self, "exiting", None)
        c = rng.random()
        if len(p.masks) < 110 and p.nlab < 70 and c < 0.3 and self.depth < 6:
            self.tailed = True
            sub = self.calljit(tail=True)
            self.endkind = dict(sub.endkind)
            for i in range(self.N - self.keep + 1, self.N - sub.keep + 1):
                self.endkind[i] = self.kind[i]
            self.r0known = sub.r0known
            return
        self.endkind = dict(self.kind)
        if ex is not None:
            self.r0known = self.sc > 0 and self.kind[1] == "w"
            free = [i for i in self.regs() if i > 1]
            t = self.target(1, ex) if free or True else None
            self.endkind = dict(self.kind)
            p.both("retto %s" % t[0], ["retto", t[1]])
            return
        if len(p.masks) < 110 and c < 0.45 and self.conv == "call" and (self.ret == "v" or True):
            self.callc(tail=True)
            return
        if c < 0.55 and (self.ret in "vw4") and self.regs():
            # return by the own return address
            if self.ret in ("w", "4"):
                self.setr(1, self.ret)
            free = [i for i in self.regs() if i > 1]
            if free and rng.random() < 0.6:
                i = rng.choice(free)
                dst = self.r(i)
                self.kind[i] = "0"
            elif self.local >= p.w:
                dst = self.loc(rng.randrange(self.local // p.w) * p.w)
            else:
                dst = self.mem0(D + 0xa00)
                dst = None
            if dst:
                p.both("opd GET_RETURN_ADDRESS %s" % dst[0], ["getret", dst[1]])
                self.endkind = dict(self.kind)
                if self.ret != "v":
                    self.setr(1, self.ret)
                self.endkind = dict(self.kind)
                if dst[1][0] == "r":
                    self.endkind[dst[1][1]] = "0"
                p.both("retto %s" % dst[0], ["retto", dst[1]])
                return
        if self.ret == "v":
            self.endkind = dict(self.kind)
            p.both("retv", ["ret", "none"])
        else:
            txt, js, o = self.retop()
            self.endkind = dict(self.kind)
            if self.ret in ("w", "4") and self.N - self.keep < 1:
                pass
            p.both("ret %s %s" % (txt, o[0]), js)


def c06_random(w, n, seed, prof=(12, 6, 6, 0), tag="rnd"):
    rng = random.Random(seed * 31 + w)
    out = []
    for k in range(n):
        ret = rng.choice("vww4df")
        p = CProg("C06-%s-%d-%d-%d" % (tag, w, seed, k), w, prof, "-" if ret == "v" else ret)
        p.open()
        m = Func(p, rng, 0, "call", 0, [], ret, role="main")
        m.body()
        p.link(rng)
        out.append(p)
    return out


def gencalls(progs):
    """C source of the functions called"""
    names = sorted(set().union(*[p.used for p in progs])) or ["rec___v"]
    o = []
    for nm in names:
        kind, rest = nm[:3], nm[4:]
        args, ret = rest.split("__") if not rest.startswith("__") else ("", rest[2:])
        ps = ", ".join("ty_%s a%d" % (a, i) for i, a in enumerate(args)) or "void"
        if kind == "rec":
            o.append("static ty_%s __attribute__((noinline)) %s(%s) { BEGIN() %s RET_%s }" % (ret, nm, ps, " ".join("LOG(%d, a%d)" % (i, i) for i in range(len(args))), ret))
        else:
            fn = {"d": "dconst", "f": "fconst", "w": "wconst", "4": "iconst"}
            call = "((ty_%s (*)(%s))fn)(%s)" % (ret, ", ".join("ty_" + a for a in args) or "void", ", ".join("%s(%d)" % (fn[a], i) for i, a in enumerate(args)))
            if ret == "v":
                b = "%s;" % call
            else:
                b = "ty_%s r = %s; LOG(0, r)" % (ret, call)
            o.append("static void __attribute__((noinline)) %s(void *fn) { uint8_t *s = SLOT(); stack_check(); CLOBBER(); *(UW *)s = 1; { %s } CLOBBER(); }" % (nm, b))
    o.append("static const struct { const char *n; void *f; } gencalls[] = { %s, { 0, 0 } };" % ", ".join('{ "%s", %s }' % (n, n) for n in names))
    return "\n".join(o) + "\n"
