-------------------------------- MODULE Lir --------------------------------
(***************************************************************************)
(* The LIR abstract machine: what code built through the sljit API must do *)
(* when it is executed, independent of the backend.                        *)
(*                                                                         *)
(* One step executes one LIR instruction of the current program.  A word   *)
(* is the tuple of its bytes, least significant first.  A byte is 0..255,  *)
(* -1 when the documentation leaves it undefined (high half of a 32 bit    *)
(* result, unwritten local), or < -1 when it is part of an opaque value    *)
(* (a fast call return address) that may only be moved.                    *)
(***************************************************************************)
EXTENDS LirOps, LirFloat, FiniteSets

CONSTANT Prog(_)               \* program number i (see LirTrace)

VARIABLES pi,   \* index of the program
          pc,   \* index of its next instruction
          R,    \* integer registers
          F,    \* floating point registers (8 bytes each)
          V,    \* vector registers
          mem,  \* written memory cells -> byte
          fl,   \* status flags: z and the variable flag (type, value)
          cs,   \* call stack
          pt,   \* modifications of the code: <<kind, number>> -> new value
          st    \* "run", "done", "rejected"
vars == <<pi, pc, R, F, V, mem, fl, cs, pt, st>>

P == Prog(pi)
I == P.ins[pc]
W == P.w
\* optional instructions the backend declined to emit
Skipped == Len(P.skip) > 0 /\ \E k \in 1..Len(P.skip) : P.skip[k] = pc
K(name) == st = "run" /\ pc <= Len(P.ins) /\ I[1] = name /\ ~Skipped

\* a constant, jump target or table may have been changed after the generation
Patched(kind, k, v) == IF <<kind, k>> \in DOMAIN pt THEN pt[<<kind, k>>] ELSE v
\* the target t of a jump whose number, when it is rewritable, is the field f of the instruction
Target(t, f) == IF Len(I) >= f THEN Patched("j", I[f], t) ELSE t

NoFlags == [z |-> -1, t |-> "", v |-> -1]
Defined(v) == \A i \in 1..Len(v) : v[i] >= 0
\* generator errors are errors of the machinery, not of the code
Need(v, what) == Assert(v, <<"SPECERROR", P.id, pc, what>>)
Def(v) == IF Need(Defined(v), "undefined operand") THEN v ELSE v
Pad(v, n) == IF Len(v) >= n THEN v ELSE v \o [i \in 1..(n - Len(v)) |-> -1]

-----------------------------------------------------------------------------
(* Memory.  A cell is region * 2^24 + offset.  Regions of a program are    *)
(* <<base word, size, seed>>; seed < 0 means initially undefined contents. *)
\* region 3: the local area, whose address is known when it was asked for
\* regions 4..: read-only buffers filled with a table of label addresses
NReg == Len(P.reg)
RegBase(r) == IF r > NReg THEN P.labs[P.tabs[r - NReg][1]]
              ELSE IF r = 3 /\ Len(P.lbase) > 0 THEN P.lbase ELSE P.reg[r][1]
RegSize(r) == IF r > NReg THEN W * Len(P.tabs[r - NReg][2]) ELSE P.reg[r][2]
RegionOf(a) ==
  LET InR(r) == LET d == Sub(a, RegBase(r)) IN IsZeroFrom(d, 4) /\ ToNat(SubSeq(d, 1, 3)) < RegSize(r)
      S == {r \in 1..(NReg + Len(P.tabs)) : InR(r)}
  IN IF Need(S # {}, <<"wild address", a>>) THEN CHOOSE r \in S : TRUE ELSE 0
CellOf(a) == LET r == RegionOf(a) IN r * 16777216 + ToNat(SubSeq(Sub(a, RegBase(r)), 1, 3))
Order(v) == IF P.be = 1 THEN Reverse(v) ELSE v
InitByte(c) ==
  LET r == c \div 16777216
      o == c % 16777216
  IN IF r > NReg THEN Order(P.laddr[Patched("b", r - NReg, P.tabs[r - NReg][2])[(o \div W) + 1]])[(o % W) + 1]
     ELSE LET s == P.reg[r][3] IN IF s < 0 THEN -1 ELSE (o * 167 + (o \div 256) * 13 + s) % 256
Byte(c) == IF c \in DOMAIN mem THEN mem[c] ELSE InitByte(c)
Load(c, n) == Order(TLCEval([i \in 1..n |-> Byte(c + i - 1)]))
\* a memory with value v stored at cell c
Stored(m, c, v) == LET o == Order(v) IN [x \in c..(c + Len(v) - 1) |-> o[x - c + 1]] @@ m

-----------------------------------------------------------------------------
(* Operands:  <<"r", i>>  <<"i", word>>  <<"m", base, index, shift, offset>> *)
(* (0: no such register)  <<"l", offset>> (stack relative, own frame)       *)
LocalBase == IF cs = <<>> THEN P.lcell ELSE Head(cs).lcell
EA(o) ==
  LET b == IF o[2] = 0 THEN o[5] ELSE Add(Def(R[o[2]]), o[5])
  IN IF o[3] = 0 THEN b ELSE Add(b, Shl(Def(R[o[3]]), o[4]))
OpCell(o) == IF o[1] = "l" THEN LocalBase + o[2] ELSE CellOf(EA(o))
IsMem(o) == o[1] = "m" \/ o[1] = "l"
\* value of operand o read as n bytes
Raw(o, n) == CASE o[1] = "r" -> Trunc(R[o[2]], n)
               [] o[1] = "i" -> Trunc(o[2], n)
               [] OTHER -> Load(OpCell(o), n)
Val(o, n) == Def(Raw(o, n))

SetReg(i, v) == R' = [R EXCEPT ![i] = Pad(v, W)]
Dst(o, v) == IF o[1] = "r" THEN SetReg(o[2], v) /\ UNCHANGED mem
             ELSE mem' = Stored(mem, OpCell(o), v) /\ UNCHANGED R
Adv == pc' = pc + 1 /\ UNCHANGED <<pi, st>>
KeepFV == UNCHANGED <<F, V, cs>>
FlagsKept == UNCHANGED fl
FlagsLost == fl' = NoFlags

CondVal(c) ==        \* truth of condition c under the current flags
  LET k == Cond[c]
      v == IF k[1] = "Z" THEN fl.z ELSE fl.v
  IN IF Need(v >= 0 /\ (k[1] = "Z" \/ fl.t = k[1]), <<"flag not available", c>>) THEN v = k[2] ELSE FALSE

-----------------------------------------------------------------------------
(* Integer instructions *)
Op0 == /\ K("op0") /\ Adv /\ KeepFV /\ UNCHANGED mem
       /\ LET n == I[2]
              w == I[3]
              a == Def(Trunc(R[1], w))
              b == Def(Trunc(R[2], w))
              Two(p) == R' = [R EXCEPT ![1] = Pad(p[1], W), ![2] = Pad(p[2], W)]
              Halves(p) == <<Trunc(p, w), SubSeq(p, w + 1, 2 * w)>>
          IN CASE n \in {"NOP", "ENDBR", "MEMORY_BARRIER"} -> UNCHANGED <<R, fl>>
               [] n = "SKIP_FRAMES_BEFORE_RETURN" -> UNCHANGED R /\ FlagsLost
               [] n = "LMUL_UW" -> Two(Halves(UMulFull(a, b))) /\ FlagsLost
               [] n = "LMUL_SW" -> Two(Halves(SMulFull(a, b))) /\ FlagsLost
               [] n = "DIVMOD_UW" -> Two(UDivMod(a, b)) /\ FlagsLost
               [] n = "DIVMOD_SW" -> Two(SDivMod(a, b)) /\ FlagsLost
               [] n = "DIV_UW" -> SetReg(1, UDivMod(a, b)[1]) /\ FlagsLost
               [] n = "DIV_SW" -> SetReg(1, SDivMod(a, b)[1]) /\ FlagsLost

Op1 == /\ K("op1") /\ Adv /\ KeepFV
       /\ LET n == I[2]
              w == I[3]
              sz == MovSize(n, w)
              v0 == Raw(I[5], sz)
              v == IF n \in {"MOV", "MOV32", "MOV_P"} \/ (IsMem(I[4]) /\ IsMove(n)) THEN v0 ELSE Def(v0)
              r == IF IsMem(I[4]) /\ IsMove(n) THEN v ELSE Op1Val(n, v, w)
          IN /\ Dst(I[4], IF IsMem(I[4]) THEN Trunc(r, StoreSize(n, w)) ELSE r)
             /\ IF IsMove(n) THEN FlagsKept ELSE FlagsLost

Op2Flags(n, z, t, a, b, c, r) ==
  [z |-> IF z = 1 THEN Bit(IsZero(r)) ELSE -1, t |-> t, v |-> IF t = "" THEN -1 ELSE FlagVal(n, t, a, b, c)]
CarryIn(n) == IF n \in {"ADDC", "SUBC"}
              THEN IF Need(fl.t = "CARRY", "carry expected") THEN fl.v ELSE 0 ELSE 0
\* without a mask, a shift amount which is not an immediate must be less than the bit length
InRange(n, o, b) == n \in {"SHL", "LSHR", "ASHR"} /\ o[1] # "i" => Need(b[1] < 8 * Len(b) /\ \A i \in 2..Len(b) : b[i] = 0, "shift amount")
Op2 == /\ K("op2") /\ Adv /\ KeepFV
       /\ LET n == I[2]
              w == I[3]
              c == CarryIn(n)
              a == Val(I[7], w)
              b == Val(I[8], w)
              r == Op2Val(n, a, b, c)
          IN InRange(n, I[8], b) /\ Dst(I[6], r) /\ fl' = Op2Flags(n, I[4], I[5], a, b, c, r)
Op2u == /\ K("op2u") /\ Adv /\ KeepFV /\ UNCHANGED <<R, mem>>
        /\ LET n == I[2]
               w == I[3]
               c == CarryIn(n)
               a == Val(I[6], w)
               b == Val(I[7], w)
               r == Op2Val(n, a, b, c)
           IN InRange(n, I[7], b) /\ fl' = Op2Flags(n, I[4], I[5], a, b, c, r)
MulAdd == /\ K("op2r") /\ Adv /\ KeepFV /\ UNCHANGED mem /\ FlagsLost
          /\ LET w == I[3] IN SetReg(I[4], Add(Val(<<"r", I[4]>>, w), Mul(Val(I[5], w), Val(I[6], w))))
ShiftInto == /\ K("shi") /\ Adv /\ KeepFV /\ UNCHANGED mem /\ FlagsLost
             /\ LET w == I[3]
                    a == Val(<<"r", I[5]>>, w)
                    b == Val(<<"r", I[6]>>, w)
                    k == ShiftAmount(Val(I[7], w))
                IN SetReg(I[4], IF I[2] \in {"SHL", "MSHL"} THEN ShlInto(a, b, k) ELSE ShrInto(a, b, k))

(* Consumers of flags *)
OpFlags == /\ K("opf") /\ Adv /\ KeepFV
           /\ LET n == I[2]
                  w == I[3]
                  c == OfNat(Bit(CondVal(I[6])), w)
              IN IF n = "MOV" THEN Dst(I[5], c) /\ FlagsKept
                 ELSE LET a == Val(I[5], w)
                          r == Op2Val(n, a, c, 0)
                      IN Dst(I[5], r) /\ fl' = [z |-> IF I[4] = 1 THEN Bit(IsZero(r)) ELSE -1, t |-> "", v |-> -1]
Select == /\ K("sel") /\ Adv /\ KeepFV /\ UNCHANGED mem /\ FlagsKept
          /\ LET w == I[3]
                 s == Raw(I[5], w)
             IN SetReg(I[4], IF CondVal(I[2]) THEN s ELSE Trunc(R[I[6]], w))
FSelect == /\ K("fsel") /\ Adv /\ UNCHANGED <<R, V, cs, mem>> /\ FlagsKept
           /\ LET w == I[3]
                  s == IF I[5][1] = "f" THEN Trunc(F[I[5][2]], w) ELSE Load(OpCell(I[5]), w)
              IN F' = [F EXCEPT ![I[4]] = Pad(IF CondVal(I[2]) THEN s ELSE Trunc(F[I[6]], w), 8)]

-----------------------------------------------------------------------------
(* Control flow: targets are instruction indexes *)
Goto(t, p) == pc' = (IF p THEN t ELSE pc + 1) /\ UNCHANGED <<pi, st>>
SetFlags == /\ K("scf") /\ Adv /\ KeepFV /\ UNCHANGED <<R, mem, fl>>   \* sljit_set_current_flags
Label == /\ K("label") /\ Adv /\ KeepFV /\ UNCHANGED <<R, mem, fl>>
Jump == /\ K("jmp") /\ KeepFV /\ UNCHANGED <<R, mem, fl>>
        /\ Goto(Target(I[3], 4), I[2] = "JUMP" \/ CondVal(I[2]))
Cmp == /\ K("cmp") /\ KeepFV /\ UNCHANGED <<R, mem>> /\ FlagsLost
       /\ Goto(Target(I[6], 7), CmpTrue(I[2], Val(I[4], I[3]), Val(I[5], I[3])))
Op2Cmpz == /\ K("op2cmpz") /\ KeepFV
           /\ LET n == I[2]
                  w == I[3]
                  c == CarryIn(n)
                  a == Val(I[7], w)
                  b == Val(I[8], w)
                  r == Op2Val(n, a, b, c)
              IN /\ Dst(I[6], r) /\ fl' = Op2Flags(n, 0, I[4], a, b, c, r)
                 /\ Goto(Target(I[9], 10), IsZero(r) = (I[5] = 1))

(* Label addresses are chosen by the code generator: logged in the trace *)
OpAddr == /\ K("opaddr") /\ Adv /\ KeepFV /\ FlagsKept
          /\ LET a == IF I[2] = "MOV_ADDR" THEN P.laddr[I[4]] ELSE P.labs[I[4]]
             IN CASE I[2] = "ADD_ABS_ADDR" -> Dst(I[3], Add(Val(I[3], W), a))
                  [] OTHER -> Dst(I[3], a)
IJump == /\ K("ijmp") /\ KeepFV /\ UNCHANGED <<R, mem, fl>>
         /\ LET a == Val(I[2], W)
                S == {k \in 1..Len(P.laddr) : P.laddr[k] = a}
            IN /\ Need(S # {}, "jump to no label")
               /\ pc' = P.ltarget[CHOOSE k \in S : TRUE] /\ UNCHANGED <<pi, st>>
(* Layout of the generated code: labels in order, aligned, inside of the code *)
UleSum(a, n, b) == Ule(Add(a, OfNat(n, W)), b)                  \* a + n <= b
LowBits(a, n) == a[1] % n
LayoutOk ==
  /\ \A k \in 1..(Len(P.laborder) - 1) : Ule(P.labs[P.laborder[k]], P.labs[P.laborder[k + 1]])
  /\ \A k \in 1..Len(P.labs) : Ule(P.code[1], P.labs[k]) /\ Ule(P.labs[k], Add(P.code[1], P.code[2]))
  /\ \A k \in 1..Len(P.lay) : LowBits(P.labs[P.lay[k][1]], 2^P.lay[k][2]) = 0
  /\ \A k \in 1..Len(P.bufs) :
       LET b == P.bufs[k]
           a == P.labs[b[1]]
       IN /\ UleSum(a, b[2], Add(P.code[1], P.code[2]))
          /\ b[3] = 0 \/ UleSum(a, b[2], P.labs[b[3]])
\* fast calls: the return address is an opaque word naming the next instruction
Token(p) == TLCEval([i \in 1..W |-> -(p * 16 + i) - 16])
FastCall == /\ K("fcall") /\ UNCHANGED <<F, V, R, mem, fl>>
            /\ cs' = <<[ret |-> pc + 1, lcell |-> LocalBase, kind |-> "fast"]>> \o cs
            /\ LET t == IF I[2][1] = "t" THEN Target(I[2][2], 3)
                        ELSE LET a == Val(I[2], W) IN P.ltarget[CHOOSE k \in 1..Len(P.laddr) : P.laddr[k] = a]
               IN pc' = t /\ UNCHANGED <<pi, st>>
FastEnter == /\ K("fenter") /\ Adv /\ UNCHANGED <<F, V>> /\ FlagsLost
             /\ cs # <<>> /\ Head(cs).kind = "fast" /\ cs' = Tail(cs)
             /\ Dst(I[2], Token(Head(cs).ret))
FastReturn == /\ K("fret") /\ UNCHANGED <<F, V, cs, R, mem>> /\ FlagsLost
              /\ LET t == Raw(I[2], W)
                     p == (-(t[1]) - 17) \div 16
                 IN /\ Need(t[1] < -16 /\ t = Token(p), "fast return without address")
                    /\ pc' = p /\ UNCHANGED <<pi, st>>

-----------------------------------------------------------------------------
(* Memory instructions *)
Mem == /\ K("mem") /\ Adv /\ KeepFV /\ FlagsKept
       /\ LET n == I[2]
              w == I[3]
              sz == MovSize(n, w)
              rg == I[5]
              c == OpCell(I[6])
          IN IF rg[1] = "p"
             THEN IF I[4] = 1 THEN mem' = Stored(Stored(mem, c, R[rg[2]]), c + W, R[rg[3]]) /\ UNCHANGED R
                  ELSE R' = [R EXCEPT ![rg[2]] = Load(c, W), ![rg[3]] = Load(c + W, W)] /\ UNCHANGED mem
             ELSE IF I[4] = 1 THEN mem' = Stored(mem, c, Trunc(R[rg[2]], sz)) /\ UNCHANGED R
                  ELSE SetReg(rg[2], Op1Val(n, Load(c, sz), w)) /\ UNCHANGED mem
\* pre / post update: base' = address accessed (pre) or base + offset (post)
MemUpdate == /\ K("memu") /\ Adv /\ KeepFV /\ FlagsKept
             /\ LET n == I[2]
                    w == I[3]
                    sz == MovSize(n, w)
                    ea == EA(I[7])
                    b == I[7][2]
                    c == CellOf(IF I[5] = 1 THEN ea ELSE R[b])
                    R1 == [R EXCEPT ![b] = ea]
                IN IF I[4] = 1 THEN mem' = Stored(mem, c, Trunc(R[I[6]], sz)) /\ R' = R1
                   ELSE R' = [R1 EXCEPT ![I[6]] = Pad(Op1Val(n, Load(c, sz), w), W)] /\ UNCHANGED mem
LocalAddr == /\ K("lbase") /\ Adv /\ KeepFV /\ FlagsLost
             /\ Dst(I[2], Add(P.lbase, I[3]))
Prefetch == /\ K("prefetch") /\ Adv /\ KeepFV /\ UNCHANGED <<R, mem, fl>>
\* rewritable constants: the value emitted
Const == /\ K("const") /\ Adv /\ KeepFV /\ FlagsKept
         /\ LET n == I[2]
                c == IF Len(I) >= 6 THEN Patched("c", I[6], I[5]) ELSE I[5]
                v == IF n = "MOV_U8" /\ ~IsMem(I[4]) THEN Trunc(c, I[3])    \* a 9 bit signed value
                     ELSE Op1Val(n, Trunc(c, MovSize(n, I[3])), I[3])
            \* the sign extended constant is a word, in memory as well
            IN Dst(I[4], IF IsMem(I[4]) /\ n # "MOV_S32" THEN Trunc(v, StoreSize(n, I[3])) ELSE v)

-----------------------------------------------------------------------------
(* Floating point instructions; freg operands are <<"f", i>> *)
FRaw(o, n) == IF o[1] = "f" THEN Trunc(F[o[2]], n) ELSE Load(OpCell(o), n)
FVal(o, n) == LET v == FRaw(o, n) IN IF IsAnyNaN(v) THEN v ELSE Def(v)
FDst(o, v) == IF o[1] = "f" THEN F' = [F EXCEPT ![o[2]] = Pad(v, 8)] /\ UNCHANGED <<R, mem>>
              ELSE mem' = Stored(mem, OpCell(o), v) /\ UNCHANGED <<F, R>>
KeepV == UNCHANGED <<V, cs>>
Fop1 == /\ K("fop1") /\ Adv /\ KeepV
        /\ LET n == I[2]
               w == I[3]
           IN /\ FDst(I[4], Fop1Val(n, IF n = "MOV" THEN FRaw(I[5], w) ELSE FVal(I[5], IF n = "CONV_F" THEN 12 - w ELSE w), w))
              /\ IF n = "MOV" THEN FlagsKept ELSE FlagsLost
FCmpFlag == /\ K("fcmpf") /\ Adv /\ KeepV /\ UNCHANGED <<F, R, mem>>
            /\ fl' = [z |-> -1, t |-> I[3], v |-> FFlagVal(I[3], FVal(I[4], I[2]), FVal(I[5], I[2]))]
FCmp == /\ K("fcmp") /\ KeepV /\ UNCHANGED <<F, R, mem>> /\ FlagsLost
        /\ LET k == Cond[I[2]] IN Goto(Target(I[6], 7), FFlagVal(k[1], FVal(I[4], I[3]), FVal(I[5], I[3])) = k[2])
Fop2 == /\ K("fop2") /\ Adv /\ KeepV /\ FlagsLost
        /\ FDst(I[4], Fop2Val(I[2], FVal(I[5], I[3]), FVal(I[6], I[3])))
Fop2r == /\ K("fop2r") /\ Adv /\ KeepV /\ FlagsLost
         /\ FDst(<<"f", I[4]>>, CopySign(FVal(I[5], I[3]), FVal(I[6], I[3])))
ConvToInt == /\ K("convi") /\ Adv /\ KeepV /\ UNCHANGED F /\ FlagsLost  \* I = name, float width, int width, dst, src
             /\ Dst(I[4], FloatToInt(FVal(I[5], I[2]), I[3]))
ConvFromInt == /\ K("convf") /\ Adv /\ KeepV /\ FlagsLost               \* float width, int width, signed, dst, src
               /\ FDst(I[5], IntToFloat(Val(I[6], I[3]), I[4] = 1, I[2]))
FSet == /\ K("fset") /\ Adv /\ KeepV /\ UNCHANGED <<R, mem>> /\ FlagsKept
        /\ F' = [F EXCEPT ![I[2]] = Pad(I[3], 8)]
\* raw copies between integer and float registers; pair: <<"p", r1, r2>>, r1 is the high half
FCopy == /\ K("fcopy") /\ Adv /\ KeepV /\ UNCHANGED mem /\ FlagsKept
         /\ LET w == I[3]
                rg == I[5]
                f == I[4]
            IN IF I[2] = 1
               THEN /\ UNCHANGED R
                    /\ F' = [F EXCEPT ![f] = Pad(IF rg[1] = "p" THEN Trunc(R[rg[3]], 4) \o Trunc(R[rg[2]], 4)
                                                ELSE IF w > W THEN SubSeq(F[f], 1, 4) \o R[rg[2]]       \* the high half only
                                                ELSE Trunc(R[rg[2]], w), 8)]
               ELSE /\ UNCHANGED F
                    /\ R' = IF rg[1] = "p" THEN [R EXCEPT ![rg[3]] = SubSeq(F[f], 1, 4), ![rg[2]] = SubSeq(F[f], 5, 8)]
                            ELSE IF w > W THEN [R EXCEPT ![rg[2]] = SubSeq(F[f], 5, 8)]
                            ELSE [R EXCEPT ![rg[2]] = Pad(Trunc(F[f], w), W)]
FMem == /\ K("fmem") /\ Adv /\ KeepV /\ FlagsKept
        /\ IF I[3] = 1 THEN mem' = Stored(mem, OpCell(I[5]), Trunc(F[I[4]], I[2])) /\ UNCHANGED <<F, R>>
           ELSE F' = [F EXCEPT ![I[4]] = Pad(Load(OpCell(I[5]), I[2]), 8)] /\ UNCHANGED <<R, mem>>
FMemUpdate == /\ K("fmemu") /\ Adv /\ KeepV /\ FlagsKept
              /\ LET ea == EA(I[6])
                     b == I[6][2]
                     c == CellOf(IF I[4] = 1 THEN ea ELSE R[b])
                 IN /\ R' = [R EXCEPT ![b] = ea]
                    /\ IF I[3] = 1 THEN mem' = Stored(mem, c, Trunc(F[I[5]], I[2])) /\ UNCHANGED F
                       ELSE F' = [F EXCEPT ![I[5]] = Pad(Load(c, I[2]), 8)] /\ UNCHANGED mem

-----------------------------------------------------------------------------
(* Functions.  R(i) is register i + 1, S(i) is register Len(R) - i (floats *)
(* alike).  A frame remembers the registers of its caller; every activation*)
(* has its own, initially undefined local area.                            *)
(* enter: regarg, keep, args, sc, sv, fsc, fsv.  Arguments are "w" / "4"   *)
(* (integer, upper case "W" / "5": kept in a scratch register), "d" / "f". *)
Undef(n) == [k \in 1..n |-> -1]
IsFArg(t) == t \in {"d", "f"}
ArgSize(t) == CASE t = "d" -> 8 [] t \in {"f", "4", "5"} -> 4 [] OTHER -> W
ArgNo(args, k) == Cardinality({j \in 1..k : IsFArg(args[j]) = IsFArg(args[k])})       \* among its kind
SavedNo(args, k) == Cardinality({j \in 1..k : args[j] \in {"w", "4"}})
ArgVal(args, k, RR, FF) == Trunc(IF IsFArg(args[k]) THEN FF[ArgNo(args, k)] ELSE RR[ArgNo(args, k)], ArgSize(args[k]))
\* the frame of the function being executed (fast calls stay in the frame)
RECURSIVE FrameIn(_)
FrameIn(c) == IF Head(c).kind = "fast" THEN FrameIn(Tail(c)) ELSE Head(c)
FR == FrameIn(cs)
LocalStep == 1114112
LocalOf(depth) == 3 * 16777216 + depth * LocalStep
NoFrame == [kind |-> "main", ret |-> 0, R |-> <<>>, F |-> <<>>, csv |-> 0, cfsv |-> 0, depth |-> 0,
            sv |-> 0, fsv |-> 0, keep |-> 0, lcell |-> LocalOf(0)]
Enter == /\ K("enter") /\ Adv /\ FlagsLost /\ UNCHANGED V
         /\ LET keep == I[3]
                args == I[4]
                fr == IF cs = <<>> THEN NoFrame ELSE Head(cs)
                N == Len(R)
                Dest(k) == IF I[2] = 1 \/ args[k] \in {"W", "5"} THEN ArgNo(args, k) ELSE N - SavedNo(args, k) + 1
                Ints == {k \in 1..Len(args) : ~IsFArg(args[k])}
                Floats == {k \in 1..Len(args) : IsFArg(args[k])}
            IN /\ R' = TLCEval([i \in 1..N |->
                         IF \E k \in Ints : Dest(k) = i THEN Pad(ArgVal(args, CHOOSE k \in Ints : Dest(k) = i, R, F), W)
                         ELSE IF i > N - keep THEN R[i] ELSE Undef(W)])
               /\ F' = TLCEval([i \in 1..Len(F) |->
                         IF \E k \in Floats : ArgNo(args, k) = i THEN Pad(ArgVal(args, CHOOSE k \in Floats : ArgNo(args, k) = i, R, F), 8)
                         ELSE Undef(8)])
               /\ mem' = [c \in {x \in DOMAIN mem : x < fr.lcell \/ x >= fr.lcell + LocalStep} |-> mem[c]]
               /\ cs' = <<[fr EXCEPT !.sv = I[6], !.fsv = I[8], !.keep = keep]>> \o (IF cs = <<>> THEN <<>> ELSE Tail(cs))
SetContext == /\ K("ectx") /\ Adv /\ KeepFV /\ UNCHANGED <<R, mem>> /\ FlagsLost
\* the registers as the caller of the current function left them (callee saved view)
CallerR == [i \in 1..Len(R) |-> IF i > Len(R) - FR.keep THEN R[i] ELSE IF FR.kind = "main" THEN Undef(W) ELSE FR.R[i]]
CallerF == IF FR.kind = "main" THEN [i \in 1..Len(F) |-> Undef(8)] ELSE FR.F
\* a new frame; a tail call (CALL_RETURN) replaces the current one
NewFrame(kind, tail) ==
  IF tail THEN [FR EXCEPT !.R = CallerR, !.sv = 0, !.fsv = 0, !.keep = 0]
  ELSE [kind |-> kind, ret |-> pc + 1, R |-> R, F |-> F, csv |-> FR.sv, cfsv |-> FR.fsv, depth |-> FR.depth + 1,
        sv |-> 0, fsv |-> 0, keep |-> 0, lcell |-> LocalOf(FR.depth + 1)]
\* what the caller sees after the current function returned; r0, f0: values of the return registers
Unwind(r0, f0, to) ==
  LET N == Len(R)
      fr == FR
  IN /\ R' = TLCEval([i \in 1..N |-> IF i = 1 THEN r0 ELSE IF i > N - fr.keep THEN R[i] ELSE IF i > N - fr.csv THEN fr.R[i] ELSE Undef(W)])
     /\ F' = TLCEval([i \in 1..Len(F) |-> IF i = 1 THEN f0 ELSE IF i > Len(F) - fr.cfsv THEN fr.F[i] ELSE Undef(8)])
     /\ cs' = Tail(cs)
     /\ pc' = to /\ UNCHANGED <<pi, st, V>> /\ FlagsLost
LabelAt(a) == LET S == {k \in 1..Len(P.laddr) : P.laddr[k] = a}
              IN IF Need(S # {}, <<"no label at", a>>) THEN P.ltarget[CHOOSE k \in S : TRUE] ELSE 0
\* call: tail, args, target
Call == /\ K("call") /\ UNCHANGED <<V, mem>> /\ FlagsLost
        /\ LET tail == I[2] = 1
               args == I[3]
               Regs == {ArgNo(args, k) : k \in {j \in 1..Len(args) : ~IsFArg(args[j])}}
               to == IF I[4][1] = "t" THEN I[4][2] ELSE LabelAt(Val(I[4], W))
           IN /\ R' = TLCEval(IF tail THEN [i \in 1..Len(R) |-> IF i \in Regs THEN R[i] ELSE CallerR[i]] ELSE R)
              /\ F' = F
              /\ cs' = <<NewFrame("call", tail)>> \o (IF tail THEN Tail(cs) ELSE cs)
              /\ pc' = to /\ UNCHANGED <<pi, st>>
\* return: "none" / "int" / "float", name, size, operand
Return == /\ K("ret") /\ UNCHANGED mem
          /\ Unwind(IF I[2] = "int" THEN Pad(IF I[3] \in {"MOV", "MOV_P"} THEN Raw(I[5], IF I[4] = 4 THEN 4 ELSE W) ELSE Op1Val(I[3], Val(I[5], MovSize(I[3], I[4])), I[4]), W) ELSE Undef(W),
                    IF I[2] = "float" THEN Pad(FRaw(I[5], I[4]), 8) ELSE Undef(8), FR.ret)
ReturnTo == /\ K("retto") /\ UNCHANGED mem
            /\ LET a == Raw(I[2], W)
               IN IF a[1] < -16 THEN /\ Need(a = Token((-(a[1]) - 17) \div 16), "bad return address")
                                     /\ Unwind(R[1], Undef(8), (-(a[1]) - 17) \div 16)
                  ELSE Unwind(R[1], Undef(8), LabelAt(Def(a)))
ReturnAddress == /\ K("getret") /\ Adv /\ KeepFV /\ FlagsKept /\ Dst(I[2], Token(FR.ret))

-----------------------------------------------------------------------------
(* Vector instructions.  A vector register holds bytes in the order they   *)
(* have in memory; <<"v", i>> is an operand.  n: bytes of the register     *)
(* (what is above is undefined after a write), e: bytes of an element.     *)
RawBytes(c, n) == TLCEval([i \in 1..n |-> Byte(c + i - 1)])
StoredRaw(m, c, v) == [x \in c..(c + Len(v) - 1) |-> v[x - c + 1]] @@ m
VRaw(o, n) == IF o[1] = "v" THEN Trunc(V[o[2]], n) ELSE RawBytes(OpCell(o), n)
SetV(i, v) == V' = TLCEval([V EXCEPT ![i] = Pad(v, Len(V[i]))])
Lane(v, e, k) == SubSeq(v, e * k + 1, e * k + e)          \* lanes are numbered from 0
Lanes(n, e, L(_)) == TLCEval([b \in 1..n |-> L((b - 1) \div e)[((b - 1) % e) + 1]])
KeepVec == UNCHANGED cs /\ FlagsKept
\* the scalar operand as the bytes of an element
ScalarBytes(o, e) == CASE o[1] = "f" -> Order(Trunc(F[o[2]], e))
                       [] o[1] = "r" -> Order(Trunc(R[o[2]], e))
                       [] o[1] = "i" -> Order(SExt(o[2], e))
                       [] OTHER -> RawBytes(OpCell(o), e)
\* smov store n vreg operand
SimdMov == /\ K("smov") /\ Adv /\ KeepVec /\ UNCHANGED <<R, F>>
           /\ LET n == I[3]
                  o == I[5]
              IN IF I[2] = 0 THEN SetV(I[4], VRaw(o, n)) /\ UNCHANGED mem
                 ELSE IF o[1] = "v" THEN SetV(o[2], Trunc(V[I[4]], n)) /\ UNCHANGED mem
                 ELSE mem' = StoredRaw(mem, OpCell(o), Trunc(V[I[4]], n)) /\ UNCHANGED V
\* srep n e vreg scalar
SimdReplicate == /\ K("srep") /\ Adv /\ KeepVec /\ UNCHANGED <<R, F, mem>>
                 /\ LET s == ScalarBytes(I[5], I[3]) IN SetV(I[4], Lanes(I[2], I[3], LAMBDA k : s))
\* slane store n e vreg lane operand zero signed width
SimdLane == /\ K("slane") /\ Adv /\ KeepVec
            /\ LET n == I[3]
                   e == I[4]
                   lane == I[6]
                   o == I[7]
                   v == V[I[5]]
               IN IF I[2] = 0
                  THEN /\ UNCHANGED <<R, F, mem>>
                       /\ LET s == ScalarBytes(o, e)
                              old == IF I[8] = 1 THEN Zeros(n) ELSE v
                          IN SetV(I[5], Lanes(n, e, LAMBDA k : IF k = lane THEN s ELSE Lane(old, e, k)))
                  ELSE /\ UNCHANGED V
                       /\ LET x == Lane(v, e, lane)
                              ext == IF ~Defined(x) THEN Undef(I[10]) ELSE IF I[9] = 1 THEN SExt(Order(x), I[10]) ELSE ZExt(Order(x), I[10])
                          IN CASE o[1] = "r" -> SetReg(o[2], ext) /\ UNCHANGED <<F, mem>>
                               [] o[1] = "f" -> F' = [F EXCEPT ![o[2]] = Pad(Order(x), 8)] /\ UNCHANGED <<R, mem>>
                               [] OTHER -> mem' = StoredRaw(mem, OpCell(o), x) /\ UNCHANGED <<R, F>>
\* slrep n e dst src lane
SimdLaneReplicate == /\ K("slrep") /\ Adv /\ KeepVec /\ UNCHANGED <<R, F, mem>>
                     /\ LET s == Lane(V[I[5]], I[3], I[6]) IN SetV(I[4], Lanes(I[2], I[3], LAMBDA k : s))
\* sext n e e2 signed float vreg operand: the lowest elements are extended
SimdExtend == /\ K("sext") /\ Adv /\ KeepVec /\ UNCHANGED <<R, F, mem>>
              /\ LET n == I[2]
                     e == I[3]
                     e2 == I[4]
                     src == VRaw(I[8], (n \div e2) * e)
                     X(k) == LET x == Order(Lane(src, e, k))
                             IN IF ~Defined(x) THEN Undef(e2)
                                ELSE Order(IF I[6] = 1 THEN Fop1Val("CONV_F", x, e2) ELSE IF I[5] = 1 THEN SExt(x, e2) ELSE ZExt(x, e2))
                     E == [k \in 0..((n \div e2) - 1) |-> TLCEval(X(k))]
                 IN SetV(I[7], Lanes(n, e2, LAMBDA k : E[k]))
\* ssign n e width vreg dst: the sign bits of the elements; the first element gives the
\* lowest bit, or the highest one when the bytes are stored in big endian order
RECURSIVE BitsFrom(_, _)
BitsFrom(b, hi) == IF hi = 0 THEN 0 ELSE b[hi] * 2^(hi - 1) + BitsFrom(b, hi - 1)
SimdSign == /\ K("ssign") /\ Adv /\ KeepVec /\ UNCHANGED <<F, V>>
            /\ LET n == I[2]
                   e == I[3]
                   w == I[4]
                   v == V[I[5]]
                   S(b) == LET x == Order(Lane(v, e, IF P.be = 1 THEN (n \div e) - 1 - b ELSE b)) IN x[e] \div 128
                   Bits8(j) == BitsFrom([i \in 1..8 |-> IF 8 * j + i <= n \div e THEN S(8 * j + i - 1) ELSE 0], 8)
               IN Dst(I[6], IF Defined(Trunc(v, n)) THEN TLCEval([j \in 1..w |-> Bits8(j - 1)]) ELSE Undef(w))
\* sop2 name n dst src1 operand
SimdOp2 == /\ K("sop2") /\ Adv /\ KeepVec /\ UNCHANGED <<R, F, mem>>
           /\ LET n == I[3]
                  a == V[I[5]]
                  b == VRaw(I[6], n)
                  Op(x, y) == IF x < 0 \/ y < 0 THEN -1
                              ELSE CASE I[2] = "AND" -> x & y [] I[2] = "OR" -> x | y [] I[2] = "XOR" -> x ^^ y
              IN SetV(I[4], IF I[2] = "SHUFFLE" THEN [i \in 1..n |-> IF b[i] < 0 THEN -1 ELSE a[b[i] + 1]]
                            ELSE [i \in 1..n |-> Op(a[i], b[i])])

-----------------------------------------------------------------------------
(* Atomic instructions, executed by one thread (Atomic.tla: by several).     *)
(* <<"aload", op, width, dst, base>>                                         *)
(* <<"astore", op, width, src, base, temp, use of temp (0: load/store        *)
(*   exclusive), flag requested, pc of the paired load or 0>>                *)
ACell(r, sz) == LET a == Def(R[r]) IN IF Need(a[1] % sz = 0, "aligned") THEN CellOf(a) ELSE 0
\* either both or none of the instructions of a pair is available
PairAgrees == I[1] = "astore" => (I[9] = 0 \/ (Skipped <=> \E k \in 1..Len(P.skip) : P.skip[k] = I[9]))
AtomicLoad == /\ K("aload") /\ Adv /\ KeepFV /\ UNCHANGED mem /\ FlagsLost
              /\ LET n == I[2]
                     w == I[3]
                     sz == MovSize(n, w)
                 IN SetReg(I[4], Op1Val(n, Def(Load(ACell(I[5], sz), sz)), w))
AtomicStore == /\ K("astore") /\ PairAgrees /\ Adv /\ KeepFV
               /\ LET n == I[2]
                      w == I[3]
                      sz == MovSize(n, w)
                      c == ACell(I[5], sz)
                      old == Def(Load(c, sz))
                      new == Def(Trunc(R[I[4]], sz))
                      \* the expected value is in the form the load leaves it
                      exp == Def(Trunc(R[I[6]], w))
                      ok == I[7] = 0 \/ (Need(exp = Trunc(Op1Val(n, Trunc(exp, sz), w), w), "form of the expected value") /\ Trunc(exp, sz) = old)
                  IN /\ mem' = IF ok THEN Stored(mem, c, new) ELSE mem
                     /\ IF ok THEN UNCHANGED R ELSE SetReg(I[6], <<>>)
                     /\ fl' = IF I[8] = 1 THEN [z |-> -1, t |-> "ATOMIC_STORED", v |-> Bit(ok)] ELSE NoFlags

SkipOptional == st = "run" /\ pc <= Len(P.ins) /\ Skipped /\ PairAgrees /\ Adv /\ KeepFV /\ UNCHANGED <<R, mem, fl>>

IntKinds == {"op0", "op1", "op2", "op2u", "op2r", "shi", "opf", "sel", "fsel"}
FlowKinds == {"label", "scf", "jmp", "cmp", "op2cmpz", "opaddr", "ijmp", "fcall", "fenter", "fret"}
MemKinds == {"mem", "memu", "lbase", "prefetch", "const"}
FloatKinds == {"fop1", "fcmpf", "fcmp", "fop2", "fop2r", "convi", "convf", "fset", "fcopy", "fmem", "fmemu"}
SimdKinds == {"smov", "srep", "slane", "slrep", "sext", "ssign", "sop2"}
AtomicKinds == {"aload", "astore"}
CallKinds == {"enter", "ectx", "call", "ret", "retto", "getret"}
Kind == IF st = "run" /\ pc <= Len(P.ins) THEN I[1] ELSE ""
LirStep == \/ SkipOptional
           \/ Kind \in IntKinds /\ (Op0 \/ Op1 \/ Op2 \/ Op2u \/ MulAdd \/ ShiftInto \/ OpFlags \/ Select \/ FSelect)
           \/ Kind \in FlowKinds /\ (Label \/ SetFlags \/ Jump \/ Cmp \/ Op2Cmpz \/ OpAddr \/ IJump \/ FastCall \/ FastEnter \/ FastReturn)
           \/ Kind \in MemKinds /\ (Mem \/ MemUpdate \/ LocalAddr \/ Prefetch \/ Const)
           \/ Kind \in FloatKinds /\ (Fop1 \/ FCmpFlag \/ FCmp \/ Fop2 \/ Fop2r \/ ConvToInt \/ ConvFromInt \/ FSet \/ FCopy \/ FMem \/ FMemUpdate)
           \/ Kind \in CallKinds /\ (Enter \/ SetContext \/ Call \/ Return \/ ReturnTo \/ ReturnAddress)
           \/ Kind \in AtomicKinds /\ (AtomicLoad \/ AtomicStore)
           \/ Kind \in SimdKinds /\ (SimdMov \/ SimdReplicate \/ SimdLane \/ SimdLaneReplicate \/ SimdExtend \/ SimdSign \/ SimdOp2)
=============================================================================
