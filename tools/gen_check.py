"""Sequences of valid and invalid calls for Calls.tla: every argument is chosen independently, mostly valid."""
import random

FAM = [("Z", "EQUAL", "NOT_EQUAL"), ("LESS", "LESS", "GREATER_EQUAL"), ("GREATER", "GREATER", "LESS_EQUAL"), ("SIG_LESS", "SIG_LESS", "SIG_GREATER_EQUAL"),
       ("SIG_GREATER", "SIG_GREATER", "SIG_LESS_EQUAL"), ("OVERFLOW", "OVERFLOW", "NOT_OVERFLOW"), ("CARRY", "CARRY", "NOT_CARRY"), ("ATOMIC_STORED", "ATOMIC_STORED", "ATOMIC_NOT_STORED"),
       ("F_EQUAL", "F_EQUAL", "F_NOT_EQUAL"), ("F_LESS", "F_LESS", "F_GREATER_EQUAL"), ("F_GREATER", "F_GREATER", "F_LESS_EQUAL"), ("UNORDERED", "UNORDERED", "ORDERED"),
       ("ORDERED_EQUAL", "ORDERED_EQUAL", "UNORDERED_OR_NOT_EQUAL"), ("ORDERED_LESS", "ORDERED_LESS", "UNORDERED_OR_GREATER_EQUAL"), ("ORDERED_GREATER", "ORDERED_GREATER", "UNORDERED_OR_LESS_EQUAL"),
       ("UNORDERED_OR_EQUAL", "UNORDERED_OR_EQUAL", "ORDERED_NOT_EQUAL"), ("UNORDERED_OR_LESS", "UNORDERED_OR_LESS", "ORDERED_GREATER_EQUAL"), ("UNORDERED_OR_GREATER", "UNORDERED_OR_GREATER", "ORDERED_LESS_EQUAL")]
FLAGS = [f[0] for f in FAM[1:]]
INTF, FLF = FLAGS[:6], FLAGS[7:]
MOVES = ["MOV", "MOV_U8", "MOV_S8", "MOV_U16", "MOV_S16", "MOV_U32", "MOV_S32", "MOV32", "MOV_P"]
SMALL = MOVES[1:5]
OP1 = MOVES + ["CLZ", "CTZ", "REV", "REV_U16", "REV_S16", "REV_U32", "REV_S32"]
OP2 = ["ADD", "ADDC", "SUB", "SUBC", "MUL", "AND", "OR", "XOR", "SHL", "MSHL", "LSHR", "MLSHR", "ASHR", "MASHR", "ROTL", "ROTR"]
OP0 = ["BREAKPOINT", "NOP", "LMUL_UW", "LMUL_SW", "DIVMOD_UW", "DIVMOD_SW", "DIV_UW", "DIV_SW", "MEMORY_BARRIER", "ENDBR", "SKIP_FRAMES_BEFORE_RETURN"]
FOP1 = ["MOV_F64", "CONV_F64_FROM_F32", "CONV_SW_FROM_F64", "CONV_S32_FROM_F64", "CONV_F64_FROM_SW", "CONV_F64_FROM_S32", "CONV_F64_FROM_UW", "CONV_F64_FROM_U32", "NEG_F64", "ABS_F64"]
FOP2 = ["ADD_F64", "SUB_F64", "MUL_F64", "DIV_F64"]
OTHERS = OP0 + OP1 + OP2 + FOP1 + FOP2 + ["MULADD", "COPYSIGN_F64", "FAST_RETURN", "PREFETCH_L1", "FAST_ENTER", "CMP_F64"]
WORDS, SCRATCHARGS = "wW45pP", "W5P"


class Seq:
    def __init__(s, r, k, pid):
        s.r, s.k, s.id = r, k, pid          # k: the constants of the configuration
        s.text, s.calls = [], []
        s.bad = 0.0
        s.sc = s.sv = s.fsc = s.fsv = s.vsc = s.vsv = s.loc = 0
        s.ret, s.ra, s.fl, s.z, s.b32, s.open = "none", False, "none", False, False, 0
        s.nlab = 0

    def wrong(s):
        return s.r.random() < s.bad

    def number(s, j):
        nr = s.k["nr"]
        return j[1] + 1 if j[0] == "r" else nr - j[1] if j[0] == "s" else nr + 1 if j[0] == "p" else nr + 2 + j[1] if j[0] == "t" else j[1]

    def pair(s, x, y):
        """a second register of zero is no pair"""
        return ("P%s,%s" % (x[0], y[0]), x[1] if y[0] == "q0" else ["P", x[1], y[1]])

    # ---- operands: (text, json) ----
    def gp(s, addr=False, wrong=None):
        r, k = s.r, s.k
        if s.wrong() if wrong is None else wrong:
            c = r.randrange(8)
            if c == 0: return ("p0", ["p", 0])
            if c == 1: n = r.choice([0, k["nr"] + 2 + k["nt"], 63, 100]); return ("q%d" % n, ["q", n])
            if c == 2 and s.vsc + s.fsc: return ("f0", ["f", 0]) if s.fsc and s.fsc <= 1 and False else ("q%d" % (k["nr"] + 2 + k["nt"]), ["q", k["nr"] + 2 + k["nt"]])
            if c < 5: i = s.sc + r.choice([0, 0, 1]); return ("r%d" % i, ["r", i])
            if c < 7: i = s.sv + r.choice([0, 0, 1]); return ("s%d" % i, ["s", i])
            i = k["nt"]; return ("t%d" % i, ["t", i])
        if addr and k["vlo"]:
            for _ in range(20):
                t, j = s.gp(False, False)
                n = j[1] + 1 if j[0] == "r" else k["nr"] - j[1] if j[0] == "s" else k["nr"] + 2
                if not (k["vlo"] <= n <= k["vhi"]) or s.wrong(): return t, j
        c = r.random()
        if c < 0.08: i = r.randrange(k["nt"]); return ("t%d" % i, ["t", i])
        n = s.sc + s.sv
        if n == 0: return ("t0", ["t", 0])
        i = r.randrange(n)
        if i < s.sc: return ("r%d" % i, ["r", i])
        return ("s%d" % (i - s.sc), ["s", i - s.sc])

    def fp(s, b32=False):
        r, k = s.r, s.k
        if s.wrong():
            c = r.randrange(6)
            if c == 0: return ("q0", ["q", 0])
            if c == 1:
                i = k["ntf"]; n = k["nf"] + i - k["second"]           # the register after the temporary ones
                return ("u%d" % i, ["x", n] if k["second"] and n >= 0 else ["u", i])
            if c < 4: i = max(s.fsc, s.vsc if not k["sep"] else 0) + r.choice([0, 1]); return ("f%d" % i, ["f", i])
            if k["nfs"] or k["nf"]: i = max(s.fsv, s.vsv if not k["sep"] else 0) + r.choice([0, 1]); return ("g%d" % i, ["g", i])
        if k["second"] and s.fsc and r.random() < (0.2 if b32 else 0.02): i = r.randrange(s.fsc); return ("x%d" % i, ["x", i])
        if r.random() < 0.08: i = r.randrange(k["ntf"]); return ("u%d" % i, ["u", i])
        n = s.fsc + s.fsv
        if n == 0: return ("u0", ["u", 0])
        i = r.randrange(n)
        return ("f%d" % i, ["f", i]) if i < s.fsc else ("g%d" % (i - s.fsc), ["g", i - s.fsc])

    def vp(s):
        r = s.r
        if s.wrong() or s.vsc + s.vsv == 0:
            c = r.randrange(3)
            if c == 0: return ("q0", ["q", 0])
            if c == 1: return ("v%d" % s.vsc, ["v", s.vsc])
            return ("w%d" % s.vsv, ["w", s.vsv])
        i = r.randrange(s.vsc + s.vsv)
        if s.k["pairs"] and r.random() < 0.6 and s.vsc > 1: i = 2 * r.randrange(s.vsc // 2)
        return ("v%d" % i, ["v", i]) if i < s.vsc else ("w%d" % (i - s.vsc), ["w", i - s.vsc])

    def disp(s):
        r = s.r
        return r.choice([0, 0, 8, 16, -8, 4, 255, 256, -256, 4095, 4096, 0x7ff, 0x7fff, 0x8000, 0x12345, -0x12345, 0x1234567])

    def hexd(s, v):
        return "%x" % (v & (2 ** (8 * s.k["w"]) - 1))

    def mem(s):
        r = s.r
        c = r.random()
        if s.wrong() and r.random() < 0.4:
            x = r.randrange(5)
            if x == 0: return ("X%x" % 0x1000000, ["MX", 0])
            if x == 1: return ("X%x:8" % (0x80 | 0x10000 | 1), ["MX", 0])
            if x == 2: return ("X%x" % (0x80 | 1 << 8), ["MX", 0])           # index without base
            if x == 3: return ("X%x" % 0x7e, ["MX", 0])
            return ("Np0,r0,0", ["N", ["p", 0], ["r", 0], 0])
        if c < 0.12: return ("@%s" % s.hexd(r.choice([0, 16, 0x1000, 0x5a001000])), ["@"])
        if c < 0.35:
            o = r.choice([-1, -8, s.loc, s.loc + 1, s.loc + 8]) if s.wrong() or s.loc == 0 else r.randrange(s.loc)
            return ("L%s" % s.hexd(o), ["L", o])
        b = s.gp(True)
        if c < 0.75:
            d = s.disp(); t = "M%s,%s" % (b[0], s.hexd(d))
            return (t, ["@"] if b[0] == "q0" else ["L", d] if s.number(b[1]) == s.k["nr"] + 1 else ["M", b[1]])       # other forms of the same operands
        i = s.gp(True); sh = r.choice([4, 5, -1, 8, 0x10000]) if s.wrong() else r.randrange(4)
        if i[0] == "q0": return ("M%s,%s" % (b[0], s.hexd(sh)), ["@"] if b[0] == "q0" else ["L", sh] if s.number(b[1]) == s.k["nr"] + 1 else ["M", b[1]])
        return ("N%s,%s,%d" % (b[0], i[0], sh), ["N", b[1], i[1], sh])

    def dst(s):
        if s.wrong() and s.r.random() < 0.1 and s.sc: return ("X%x:%x" % (s.r.randrange(s.sc) + 1, s.r.choice([1, 8, 0x1000])), ["MX", 0])     # a register has no second value
        return s.gp() if s.r.random() < 0.6 else s.mem()

    def imm(s):
        r = s.r
        v = r.choice([0, 1, -1, 5, 100, 0xff, -128, 0x1234, 0x7fffffff, r.getrandbits(31)])
        return ("#%s" % s.hexd(v), ["#", v if v in (0, 1) else 2])

    def src(s):
        r = s.r
        if s.wrong() and r.random() < 0.2: return ("X%x:5" % (0x7f | 0x100), ["MX", 0])
        if r.random() < 0.3: return s.imm()
        return s.dst()

    def fop(s, b32=False):
        return s.fp(b32) if s.r.random() < 0.6 else s.mem()

    def vop(s):
        return s.vp() if s.r.random() < 0.5 else s.mem()

    # ---- emission ----
    def call(s, f, text, op="", o=(), a=(), n=(), fl="none", fam="none", sig=()):
        s.text.append(".%s %s" % (f, text))
        s.calls.append(dict(f=f, op=op, o=list(o), a=[x[1] for x in a], n=list(n), fl=fl, fam=fam, s=list(sig)))

    def opn(s, op, o, fl="none", extra=()):
        return "+".join([op] + list(o) + ["F." + fl] * (fl != "none") + list(extra))

    def opts(s, choices, p=0.4, wrongs=("32", "SET_Z", "junk")):
        r = s.r
        o = [c for c in choices if r.random() < p]
        if s.wrong():
            w = r.choice(wrongs)
            if w not in o: o.append(w)
        return o

    def names(s, o):
        return ["0x%x" % s.r.choice([0x200000, 0x800000, 0x40000000]) if x == "junk" else x for x in o]

    def pick(s, ops):
        return s.r.choice(OTHERS) if s.wrong() and s.r.random() < 0.5 else s.r.choice(ops)

    def fmt(s, op, o, fl="none"):
        return s.opn(op, s.names(o), fl)

    def enter(s, f="enter", wrong=False):
        r, k = s.r, s.k
        w = lambda: wrong and r.random() < 0.25
        simd = k["simd"] and r.random() < 0.6
        ra = r.random() < 0.3
        sv = r.choice([0, 1, 2, 3, k["ns"]]); sc = r.choice([0, 1, 2, 3, 4, k["nr"] - sv])
        sc = min(sc, k["nr"] - sv)
        fsv = r.choice([0, 0, min(2, k["nfs"]), k["nfs"]]); fsc = min(r.choice([0, 1, 2, 4, k["nf"] - fsv]), k["nf"] - fsv)
        vsv = r.choice([0, 0, k["nvs"]]) if simd else 0; vsc = min(r.choice([0, 2, 4]), k["nv"] - vsv) if simd else 0
        loc = r.choice([0, 8, 16, 64, 100, 4000, k["maxlocal"]])
        keep = r.randrange(min(3, sv) + 1) if ra and r.random() < 0.5 else 0
        if w(): sc = k["nr"] - sv + r.choice([1, 2])
        if w(): sv = k["ns"] + 1; sc = min(sc, k["nr"] - sv)
        if w(): fsc = k["nf"] - fsv + 1
        if w(): fsv = k["nfs"] + 1
        if w(): vsc = k["nv"] - vsv + 1
        if w(): vsv = k["nvs"] + 1
        if w(): loc = r.choice([-1, k["maxlocal"] + 1, -8])
        if w(): keep = r.choice([1, 2, 3])
        if w(): sv, keep, ra, fsv = 1, r.choice([2, 3]), True, min(2, k["nfs"])     # kept registers beyond the saved ones
        ret = r.choice("vvw4pdf")
        if (ret in "w4p" and sc == 0 or ret in "df" and fsc == 0) and not w(): ret = "v"
        args, nsv, nw, nf = [], 0, 0, 0
        for _ in range(r.choice([0, 1, 2, 3, 4, 4]) if not w() else 5):
            c = r.choice("wW45pPdf")
            if not w():
                if c in "df":
                    if nf >= fsc: continue
                elif c in "w4p":
                    if ra or nsv >= sv: continue
                elif nw + 1 > sc: continue
            if c in "df": nf += 1
            else:
                nw += 1
                if c in "w4p": nsv += 1
            args.append(c)
        if len(args) > 4: args = args[:4]       # more do not fit into the type
        o = ["REG_ARG"] * ra
        v = keep | 4 * ra
        if r.random() < 0.05: o.append("VEX"); v |= 0x10000
        if w(): o.append("junk"); v |= r.choice([8, 0x100, 0x20000, 0x1000000])
        s.call(f, "%x %s %d %d %d %d %d %d %d" % (v, ret + ":" + "".join(args), sc, sv, fsc, fsv, vsc, vsv, loc), o=o, n=[sc, sv, fsc, fsv, vsc, vsv, loc, keep], sig=[ret] + args)
        s.sc, s.sv, s.fsc, s.fsv, s.vsc, s.vsv, s.loc, s.ret, s.ra = min(sc, k["nr"]), min(sv, k["nr"]), fsc, fsv, vsc, vsv, max(0, loc), ret, ra
        s.forget()

    def forget(s):
        s.fl, s.z, s.b32 = "none", False, False

    def cond(s, fams=None):
        r = s.r
        if fams is None:
            fams = []
            if s.z: fams.append("Z")
            if s.fl != "none": fams.append(s.fl)
            if not fams or s.wrong(): fams = [f[0] for f in FAM]
        elif s.wrong(): fams = [f[0] for f in FAM]
        n = r.choice(fams)
        f = [x for x in FAM if x[0] == n][0]
        return r.choice(f[1:]), n

    def flag(s, op):
        r = s.r
        if s.wrong(): return r.choice(FLAGS)
        if r.random() < 0.5: return "none"
        return r.choice({"MUL": ["OVERFLOW"], "ADD": ["CARRY", "OVERFLOW"], "SUB": INTF, "ADDC": ["CARRY"], "SUBC": ["CARRY"]}.get(op, ["none"]))

    def label(s):
        return -1 if s.wrong() and s.r.random() < 0.5 else 0

    def one(s, f):
        r, k = s.r, s.k
        if f in ("enter", "ectx"): return s.enter(f, s.bad > 0)
        if f == "op0":
            op = s.pick(OP0); o = s.opts(["32"] if op.startswith("DIV") else [])
            return s.call(f, s.fmt(op, o), op, o)
        if f == "op1":
            op = s.pick(OP1); o = s.opts(["32"] if op in SMALL + ["CLZ", "CTZ", "REV", "REV_U16", "REV_S16"] else []); a = [s.dst(), s.src()]
            fl = r.choice(FLAGS) if s.wrong() and r.random() < 0.3 else "none"
            return s.call(f, "%s %s %s" % (s.fmt(op, o, fl), a[0][0], a[1][0]), op, o, a, fl=fl)
        if f in ("op2", "op2u", "op2cmpz"):
            ok = [x for x in OP2 if x not in ("ADDC", "SUBC")]
            if s.fl == "CARRY": ok = ["ADDC", "SUBC", "ADD"]
            if f == "op2cmpz": ok = [x for x in ok if x not in ("MUL", "ROTL", "ROTR")]
            op = s.pick(OP2 if s.wrong() else ok); fl = s.flag(op)
            o = s.opts(["32"]) if op not in ("ADDC", "SUBC") or s.wrong() else (["32"] if s.b32 else [])
            if op not in ("MUL", "ROTL", "ROTR", "ADDC", "SUBC") and r.random() < 0.4 and "SET_Z" not in o: o.append("SET_Z")
            if f == "op2u" and fl == "none" and "SET_Z" not in o and not s.wrong() and op in ("ADD", "SUB", "AND", "XOR", "SHL"): o.append("SET_Z")
            a = ([s.dst()] if f != "op2u" else []) + [s.src(), s.src()]
            t = s.fmt(op, o, fl) + " " + " ".join(x[0] for x in a)
            n = []
            if f == "op2cmpz":
                if r.random() < 0.2: o.append("REWRITABLE_JUMP"); t = s.fmt(op, o, fl) + " " + " ".join(x[0] for x in a)
                n = [s.label()]; t += " %d" % n[0]
            s.call(f, t, op, o, a, n, fl)
            s.fl, s.z, s.b32 = fl, "SET_Z" in o and f != "op2cmpz", "32" in o
            return
        if f == "op2r":
            op = s.pick(["MULADD"]); o = s.opts(["32"]); a = [s.gp() if not s.wrong() else s.mem(), s.src(), s.src()]
            return s.call(f, "%s %s %s %s" % (s.fmt(op, o), a[0][0], a[1][0], a[2][0]), op, o, a)
        if f == "shi":
            op = s.pick(["SHL", "LSHR", "MSHL", "MLSHR"]); o = s.opts(["32", "NZ"], wrongs=("junk",)); a = [s.gp(), s.gp(), s.gp(), s.src()]
            for _ in range(8):
                if a[0][1] == a[2][1] and not s.wrong(): a[2] = s.gp()
            return s.call(f, "%s %s" % (s.fmt(op, o), " ".join(x[0] for x in a)), op, o, a)
        if f == "ops":
            op = s.pick(["FAST_RETURN", "SKIP_FRAMES_BEFORE_FAST_RETURN", "PREFETCH_L1", "PREFETCH_L2", "PREFETCH_L3", "PREFETCH_ONCE"]); o = s.opts([])
            a = [s.mem() if op.startswith("PRE") and not s.wrong() else s.dst() if not s.wrong() else s.src()]
            return s.call(f, "%s %s" % (s.fmt(op, o), a[0][0]), op, o, a)
        if f == "opd":
            op = s.pick(["FAST_ENTER", "GET_RETURN_ADDRESS"]); o = s.opts([]); a = [s.dst() if not s.wrong() else s.src()]
            return s.call(f, "%s %s" % (s.fmt(op, o), a[0][0]), op, o, a)
        if f == "rawc":
            n = r.choice([1, 2, 3, 4, 5, 6, 8, 15, 16, 0]) if s.wrong() else 4; al = r.choice([0, 1, 2, 3, -1]) if s.wrong() else 0
            return s.call(f, "%d %d" % (n, al), n=[n, al])
        if f == "fop1":
            if r.random() < 0.25:
                op = "CMP_F64"; fl = r.choice(FLF) if not s.wrong() else r.choice(FLAGS + ["none"]); o = s.opts(["32"]); a = [s.fop("32" in o), s.fop("32" in o)]
                s.call(f, "%s %s %s" % (s.fmt(op, o, fl), a[0][0], a[1][0]), op, o, a, fl=fl)
                s.fl, s.z, s.b32 = fl, False, "32" in o
                return
            op = s.pick(FOP1); o = s.opts(["32"]); b = "32" in o
            if op in ("CONV_SW_FROM_F64", "CONV_S32_FROM_F64"): a = [s.dst(), s.fop(b)]
            elif op.startswith("CONV_F64_FROM_") and op != "CONV_F64_FROM_F32": a = [s.fop(b), s.src()]
            else: a = [s.fop(b), s.fop(b)]
            if s.wrong(): a[r.randrange(2)] = s.imm()
            return s.call(f, "%s %s %s" % (s.fmt(op, o), a[0][0], a[1][0]), op, o, a)
        if f in ("fop2", "fop2r"):
            op = s.pick(FOP2 if f == "fop2" else ["COPYSIGN_F64"]); o = s.opts(["32"]); b = "32" in o
            a = [s.fop(b) if f == "fop2" or s.wrong() else s.fp(b), s.fop(b), s.fop(b)]
            fl = r.choice(FLAGS) if s.wrong() and r.random() < 0.3 else "none"
            return s.call(f, "%s %s" % (s.fmt(op, o, fl), " ".join(x[0] for x in a)), op, o, a, fl=fl)
        if f in ("fset32", "fset64"):
            a = [s.fp(f == "fset32")]
            return s.call(f, "%s %x" % (a[0][0], r.getrandbits(30)), a=a)
        if f == "fcopy":
            op = s.pick(["COPY_TO_F64", "COPY_FROM_F64"]); op = "MOV" if op in OP0 else op; o = s.opts(["32"]); a = [s.fp("32" in o), s.gp()]
            if k["w"] == 4 and r.random() < 0.5 or s.wrong():
                x, y = s.gp(), s.gp(); a[1] = s.pair(x, y)
            return s.call(f, "%s %s %s" % (s.fmt(op, o), a[0][0], a[1][0]), op, o, a)
        if f == "label":
            s.nlab += 1; return s.call(f, "%d" % s.nlab)
        if f == "alabel":
            n = r.choice([-1, 5, 16]) if s.wrong() else r.randrange(5); s.nlab += 1
            return s.call(f, "%d %d 0" % (s.nlab, n), n=[n])
        if f == "jmp":
            if r.random() < 0.3: op, fam = r.choice(["JUMP", "FAST_CALL"]), "none"
            else: op, fam = s.cond()
            if s.wrong() and r.random() < 0.2: op, fam = r.choice(["CALL", "CALL_REG_ARG"]), "none"
            o = s.opts(["REWRITABLE_JUMP"], 0.2); n = [s.label()]
            return s.call(f, "%s %d" % (s.fmt(op, o), n[0]), op, o, n=n, fam=fam)
        if f in ("scall", "sicall"):
            op = r.choice(["CALL", "CALL_REG_ARG"]) if not s.wrong() else r.choice(["CALL", "CALL_REG_ARG", "JUMP", "FAST_CALL"])
            o = s.opts((["REWRITABLE_JUMP"] if f == "scall" else []) + ["CALL_RETURN"], 0.25)
            ret = r.choice("vw4pdf") if s.wrong() or s.ret == "none" else r.choice(["v", s.ret])
            if "CALL_RETURN" in o and not s.wrong():
                op = "CALL_REG_ARG" if s.ra else "CALL"
                if s.ret != "none": ret = s.ret
            args, nw, nf = [], 0, 0
            for _ in range(r.randrange(5)):
                c = r.choice("w4pdf" if not s.wrong() else "wW4dfP")
                if not s.wrong() and (c in "df" and nf >= s.fsc or c not in "df" and nw >= s.sc): continue
                if c in "df": nf += 1
                else: nw += 1
                args.append(c)
            sg = ret + ":" + "".join(args)
            if f == "scall":
                n = [s.label()]
                return s.call(f, "%s %s %d" % (s.fmt(op, o), sg, n[0]), op, o, n=n, sig=[ret] + args)
            a = [s.src()]
            return s.call(f, "%s %s %s" % (s.fmt(op, o), sg, a[0][0]), op, o, a, sig=[ret] + args)
        if f in ("cmp", "fcmp"):
            op, fam = s.cond([x[0] for x in FAM[:5]] if f == "cmp" else FLF); o = s.opts(["32", "REWRITABLE_JUMP"], 0.3, ("SET_Z", "junk"))
            a = [s.src(), s.src()] if f == "cmp" else [s.fop("32" in o), s.fop("32" in o)]; n = [s.label()]
            return s.call(f, "%s %s %s %d" % (s.fmt(op, o), a[0][0], a[1][0], n[0]), op, o, a, n, fam=fam)
        if f == "ijmp":
            op = r.choice(["JUMP", "FAST_CALL"]) if not s.wrong() else r.choice(["CALL", "EQUAL", "F_EQUAL"]); o = s.opts([], wrongs=("REWRITABLE_JUMP", "junk")); a = [s.src()]
            return s.call(f, "%s %s" % (s.fmt(op, o), a[0][0]), op, o, a)
        if f == "opf":
            c, fam = s.cond(); op = s.pick(["MOV", "MOV32", "AND", "OR", "XOR"]); o = s.opts(["32", "SET_Z"] if op in ("AND", "OR", "XOR") else []); a = [s.dst()]
            fl = r.choice(FLAGS) if s.wrong() and r.random() < 0.3 else "none"
            return s.call(f, "%s %s %s" % (s.fmt(op, o, fl), a[0][0], c), op, o, a, fl=fl, fam=fam)
        if f in ("sel", "fsel"):
            op, fam = s.cond(); o = s.opts(["32"], wrongs=("SET_Z", "junk")); b = "32" in o
            a = [s.gp(), s.src(), s.gp()] if f == "sel" else [s.fp(b), s.fop(b), s.fp(b)]
            return s.call(f, "%s %s" % (s.fmt(op, o), " ".join(x[0] for x in a)), op, o, a, fam=fam)
        if f in ("mem", "fmem"):
            op = s.pick(MOVES if f == "mem" else ["MOV_F64"]); b = op in SMALL or f == "fmem"
            o = s.opts(["MEM_STORE"] + ["32"] * b, 0.4, ("32", "MEM_UNALIGNED", "MEM_ALIGNED_16", "MEM_ALIGNED_32", "junk"))
            if r.random() < 0.9:
                x = r.choice(["MEM_UNALIGNED"] + ["MEM_ALIGNED_16"] * (not (op in SMALL)) + ["MEM_ALIGNED_32"] * (op in ("MOV", "MOV_P") or f == "fmem" and "32" not in o))
                if x not in o and (not any(y.startswith("MEM_") and y != "MEM_STORE" for y in o) or s.wrong()): o.append(x)
            a = [s.gp() if f == "mem" else s.fp("32" in o), s.mem() if not s.wrong() else s.src()]
            if f == "mem" and (op == "MOV" or s.wrong()) and r.random() < 0.5:
                x, y = s.gp(), s.gp()
                for _ in range(8):
                    if x[1] == y[1] and not s.wrong(): y = s.gp()
                a[0] = s.pair(x, y)
            return s.call(f, "%s %s %s" % (s.fmt(op, o), a[0][0], a[1][0]), op, o, a)
        if f in ("memu", "fmemu"):
            op = s.pick(MOVES if f == "memu" else ["MOV_F64"]); o = s.opts(["MEM_STORE", "MEM_POST", "MEM_SUPP"] + ["32"] * (op in SMALL or f == "fmemu"), 0.35, ("32", "MEM_ALIGNED_32", "junk"))
            for _ in range(10):
                a = [s.gp() if f == "memu" else s.fp("32" in o), s.mem()]
                if s.wrong() or a[1][1][0] in "MN" and a[1][1][1] != a[0][1]: break
            return s.call(f, "%s %s %s" % (s.fmt(op, o), a[0][0], a[1][0]), op, o, a)
        if f[0] == "s" and f in ("smov", "srep", "slane", "slrep", "sext", "ssign", "sop2"):
            rs = r.choice([3, 4, 4, 4, 5, 6]) if not s.wrong() else r.choice([0, 1, 2, 7]); es = r.randrange(0, min(rs, 4) + 1) if not s.wrong() else r.randrange(0, 8)
            e2 = 0; op = "0x0"
            ch = {"smov": ["SIMD_STORE", "SIMD_FLOAT"], "srep": ["SIMD_FLOAT"], "slane": ["SIMD_STORE", "SIMD_FLOAT", "SIMD_LANE_ZERO", "SIMD_LANE_SIGNED", "32"], "slrep": ["SIMD_FLOAT"],
                  "sext": ["SIMD_EXTEND_SIGNED", "SIMD_FLOAT"], "ssign": ["SIMD_STORE", "32", "SIMD_FLOAT"], "sop2": ["SIMD_FLOAT"]}[f]
            o = s.opts(ch, 0.35, ("junk", "32", "SIMD_STORE") if f not in ("sop2", "sext") else ("junk",))
            if f == "ssign" and "SIMD_STORE" not in o and not s.wrong(): o.append("SIMD_STORE")
            if f == "slane" and not s.wrong():
                if "SIMD_STORE" in o: o = [x for x in o if x != "SIMD_LANE_ZERO"]
                else: o = [x for x in o if x != "SIMD_LANE_SIGNED"]
                if "SIMD_FLOAT" in o: o = [x for x in o if x not in ("32", "SIMD_LANE_SIGNED")]; es = r.choice([2, 3])
                if "32" in o: es = min(es, 2)
            if f in ("srep", "slane", "slrep", "ssign") and not s.wrong(): es = min(es, rs - 1)
            if f == "sext" and not s.wrong(): es = r.randrange(0, max(1, min(2, rs - 1))); e2 = r.randrange(es + 1, max(es + 2, min(rs, 4)))
            elif f == "sext": e2 = r.randrange(0, 7)
            if r.random() < 0.2 and "SIMD_TEST" not in o: o.append("SIMD_TEST")
            a = [s.vp()]; n = [rs, es]; lane = r.randrange(0, 1 << max(0, rs - es)) if not s.wrong() else r.choice([-1, 1 << max(0, rs - es), 100])
            if f in ("smov", "sext"): a.append(s.vop())
            elif f in ("srep", "slane"): a.append(s.fop(es == 2) if "SIMD_FLOAT" in o and not s.wrong() else s.dst() if "SIMD_STORE" in o and not s.wrong() else s.src())
            elif f == "slrep": a.append(s.vp())
            elif f == "ssign": a.append(s.dst())
            else:
                a += [s.vp(), s.vop()]; op = s.r.choice(["SIMD_OP2_AND", "SIMD_OP2_OR", "SIMD_OP2_XOR", "SIMD_OP2_SHUFFLE"])
                if op == "SIMD_OP2_SHUFFLE" and not s.wrong(): es = 0; o = [x for x in o if x != "SIMD_FLOAT"]; n = [rs, es]
                if s.wrong() and r.random() < 0.3: op = "0x0"
            if f in ("smov", "sop2") and (s.wrong() or r.random() < 0.3):
                e2 = r.randrange(0, rs + 1) if a[-1][1][0] in ("M", "N", "L", "@") and not s.wrong() else r.choice([0, 1, 3, rs, rs + 1, 7])
            n += [e2, lane]
            t = s.fmt(op, o) + "+0x%x" % (rs << 12 | es << 18 | e2 << 24)
            if f == "slane": x = "%s %s %d %s" % (t, a[0][0], lane, a[1][0])
            elif f == "slrep": x = "%s %s %s %d" % (t, a[0][0], a[1][0], lane)
            else: x = t + " " + " ".join(y[0] for y in a)
            return s.call(f, x, op, o, a, n)
        if f in ("aload", "astore"):
            op = s.pick(MOVES); o = s.opts(["32"] * (op in SMALL) + ["ATOMIC_TEST"], 0.3)
            if r.random() < 0.3: o.append(r.choice(["ATOMIC_USE_CAS", "ATOMIC_USE_LS"]))
            if s.wrong() and r.random() < 0.3: o = [x for x in o if not x.startswith("ATOMIC_USE")] + ["ATOMIC_USE_CAS", "ATOMIC_USE_LS"]
            a = [s.gp(), s.gp(True)] + ([s.gp()] if f == "astore" else [])
            fl = "none"
            if f == "astore":
                if r.random() < 0.5: fl = "ATOMIC_STORED"
                if s.wrong() and r.random() < 0.3: fl = r.choice(FLAGS)
            s.call(f, "%s %s" % (s.fmt(op, o, fl), " ".join(x[0] for x in a)), op, o, a, fl=fl)
            if f == "astore" and "ATOMIC_TEST" not in o: s.fl, s.z = fl, False
            return
        if f == "lbase":
            a = [s.dst()]; return s.call(f, "%s %s" % (a[0][0], s.hexd(s.disp())), a=a)
        if f == "const":
            op = s.pick(["MOV", "MOV_S32", "MOV32", "MOV_U8"]); o = s.opts(["32"] if op == "MOV_U8" else []); a = [s.dst()]
            return s.call(f, "%s %s 12" % (s.fmt(op, o), a[0][0]), op, o, a)
        if f == "opaddr":
            op = r.choice(["MOV_ADDR", "MOV_ABS_ADDR", "ADD_ABS_ADDR"]) if not s.wrong() else r.choice(["0x3", "0x20", "ADD"]); a = [s.dst()]; n = [s.label()]
            return s.call(f, "%s %s %d" % (op, a[0][0], n[0]), op, [], a, n)
        if f == "ret":
            m = {"w": (SMALL + ["MOV", "MOV_U32", "MOV_S32"], 0), "4": (SMALL + ["MOV32"], 1), "p": (["MOV_P"], 0), "d": (["MOV_F64"], 0), "f": (["MOV_F64"], 1)}.get(s.ret, (["MOV"], 0))
            op = r.choice(m[0]) if not s.wrong() else r.choice(MOVES + ["MOV_F64"]); o = ["32"] if m[1] and op != "MOV32" else []
            if s.wrong(): o = [] if o else ["32"]
            a = [s.fop("32" in o) if op == "MOV_F64" else s.src()]
            return s.call(f, "%s %s" % (s.fmt(op, o), a[0][0]), op, o, a)
        if f == "retv": return s.call(f, "")
        if f == "retto":
            a = [s.src()]; return s.call(f, a[0][0], a=a)
        raise Exception(f)


FUNCS = ["op0", "op1", "op1", "op2", "op2", "op2", "op2u", "op2cmpz", "op2r", "shi", "ops", "opd", "rawc", "fop1", "fop1", "fop2", "fop2r", "fset32", "fset64", "fcopy", "label", "alabel",
         "jmp", "jmp", "scall", "sicall", "cmp", "fcmp", "ijmp", "opf", "sel", "fsel", "mem", "mem", "memu", "fmem", "fmemu", "lbase", "const", "opaddr", "ret", "retv", "retto", "enter", "ectx",
         "smov", "srep", "slane", "slrep", "sext", "ssign", "sop2", "aload", "astore"]
PROD = ["op2", "op2", "op2u", "op2u", "fop1", "astore", "op2cmpz", "op1", "opf", "label", "aload", "scall", "cmp", "fop2", "get", "shi", "mem"]
CONS = ["jmp", "sel", "fsel", "opf", "op2"]


def sequence(r, k, pid):
    s = Seq(r, k, pid)
    kind = r.random()
    simd = ("smov", "srep", "slane", "slrep", "sext", "ssign", "sop2")
    if kind < 0.12:
        s.enter("enter", True)                                     # invalid declarations
    else:
        if kind > 0.03 + 0.12: s.enter()
        n = r.choice([0, 1, 1, 2, 3])
        for i in range(n):
            f = r.choice(FUNCS if r.random() < 0.5 else PROD)
            if f in ("get", "enter") or f == "ret" and s.ret in ("v", "none") or f == "retv" and s.ret != "v" or f in simd and not (k["simd"] and s.vsc) or f[0] == "a" and f[1] != "l" and not k["atomic"]: f = "op2u"
            s.one(f)
        s.bad = r.choice([0, 0.05, 0.15, 0.3, 0.6])
        f = r.choice(FUNCS if r.random() < 0.7 else CONS)
        if f in simd and not k["simd"] and r.random() < 0.9: f = "op1"
        s.one(f)
    # what follows must answer the same error, or work
    s.bad = 0
    s.call("label", "0")
    s.call("op0", "NOP", "NOP")
    s.call("gen", "0", n=[0])
    return s


def sequences(k, n, seed):
    r = random.Random("%d-calls" % seed)
    return [sequence(r, k, "c%d" % i) for i in range(n)]
