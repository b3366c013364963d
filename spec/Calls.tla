-------------------------------- MODULE Calls --------------------------------
(* Which calls are valid.  The state is what a user has to keep in mind: the *)
(* declarations of the current function, the flags which are available, the  *)
(* jumps without target, and whether a call was already rejected.            *)
(* A verdict is Bad, Open (the documentation leaves it to the library) or    *)
(* Good; conditions combine by their minimum.  K are the constants of the    *)
(* configuration.                                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT K
Bad == 0
Open == 1
Good == 2
OK == 0
COMPILED == 1
UNSUPPORTED == 4
BADARG == 5
Is(b) == IF b THEN Good ELSE Bad
Maybe(b) == IF b THEN Good ELSE Open
All(s) == IF \E i \in DOMAIN s : s[i] = Bad THEN Bad ELSE IF \E i \in DOMAIN s : s[i] = Open THEN Open ELSE Good
Any(s) == IF \E i \in DOMAIN s : s[i] = Good THEN Good ELSE IF \E i \in DOMAIN s : s[i] = Open THEN Open ELSE Bad
Set(s) == {s[i] : i \in DOMAIN s}
Max(a, b) == IF a > b THEN a ELSE b

Start == [ctx |-> FALSE, sc |-> 0, sv |-> 0, fsc |-> 0, fsv |-> 0, vsc |-> 0, vsv |-> 0, loc |-> 0, ret |-> "none", ra |-> FALSE,
          fl |-> "none", z |-> Bad, b32 |-> FALSE, open |-> 0, any |-> FALSE, bad |-> FALSE, done |-> FALSE]

(* ---- registers and operands --------------------------------------------- *)
\* general registers are numbered 1..nr, S0 is nr, the stack pointer nr + 1, temporaries follow
Num(o) == CASE o[1] = "r" -> o[2] + 1 [] o[1] = "s" -> K.nr - o[2] [] o[1] = "p" -> K.nr + 1 [] o[1] = "t" -> K.nr + 2 + o[2] [] OTHER -> 0
Kind(o) == o[1]
IsGp(o) == Kind(o) \in {"r", "s", "p", "t", "q"}
GpNum(o) == IF Kind(o) = "q" THEN o[2] ELSE Num(o)
InGp(m, n) == (n >= 1 /\ n <= m.sc) \/ (n <= K.nr /\ n > K.nr - m.sv) \/ (n >= K.nr + 2 /\ n < K.nr + 2 + K.nt)
\* only the temporary registers may be used without declaration
Reg(m, o) == IF ~IsGp(o) THEN Bad ELSE IF ~m.ctx THEN (IF InGp(m, GpNum(o)) THEN Open ELSE Bad) ELSE Is(InGp(m, GpNum(o)))
Virtual(n) == n >= K.vlo /\ n <= K.vhi
Address(m, o) == All(<<Reg(m, o), Is(~Virtual(GpNum(o)))>>)
Mem(m, o) ==
  IF ~m.ctx THEN Bad
  ELSE CASE Kind(o) = "@" -> Good
         [] Kind(o) = "L" -> Is(o[2] >= 0 /\ o[2] < m.loc)
         [] Kind(o) = "M" -> Address(m, o[2])
         [] Kind(o) = "N" -> All(<<Address(m, o[2]), Address(m, o[3]), Is(o[4] \in 0..3)>>)
         [] OTHER -> Bad
IsMem(o) == Kind(o) \in {"@", "L", "M", "N", "MX"}
Dst(m, o) == IF IsGp(o) THEN Reg(m, o) ELSE Mem(m, o)
Src(m, o) == IF ~m.ctx THEN Bad ELSE IF Kind(o) = "#" THEN Good ELSE Dst(m, o)
\* float registers; the registers of floats and vectors are shared unless they are separate
FNum(o) == CASE Kind(o) = "f" -> o[2] + 1 [] Kind(o) = "g" -> K.nf - o[2] [] Kind(o) = "u" -> K.nf + 1 + o[2] [] Kind(o) = "x" -> o[2] + 1 + K.second [] OTHER -> 0
InF(n, a, b) == (n >= 1 /\ n <= a) \/ (n <= K.nf /\ n > K.nf - b)
FloatNum(m, n) == IF InF(n, m.fsc, m.fsv) \/ (n > K.nf /\ n <= K.nf + K.ntf) THEN Good
                  ELSE IF K.sep = 0 /\ InF(n, Max(m.fsc, m.vsc), Max(m.fsv, m.vsv)) THEN Open ELSE Bad
\* a general register in place of a float one: only numbers are passed, and the number may be valid
FReg(m, o, is32) == IF IsGp(o) THEN (IF GpNum(o) = 0 \/ (m.ctx /\ K.second = 0 /\ FloatNum(m, GpNum(o)) = Bad) THEN Bad ELSE Open)
                    ELSE IF Kind(o) \notin {"f", "g", "u", "x"} THEN Bad
                    ELSE IF ~m.ctx THEN (IF Kind(o) = "u" /\ o[2] < K.ntf THEN Open ELSE Bad)
                    ELSE IF Kind(o) = "x" /\ K.second # 0 THEN (IF is32 THEN FloatNum(m, o[2] + 1) ELSE Bad) ELSE FloatNum(m, FNum(o))
FOp(m, o, is32) == IF IsGp(o) \/ Kind(o) \in {"f", "g", "u", "x"} THEN FReg(m, o, is32) ELSE Mem(m, o)
\* vector registers; where they are pairs a large one needs both halves
VNum(o) == CASE Kind(o) = "v" -> o[2] + 1 [] Kind(o) = "w" -> K.nv - o[2] [] OTHER -> 0
InV(m, n) == (n >= 1 /\ n <= m.vsc) \/ (n <= K.nv /\ n > K.nv - m.vsv)
VReg(m, o, size) == IF ~m.ctx \/ Kind(o) \notin {"v", "w"} THEN Bad
                    ELSE LET n == VNum(o) other == IF n % 2 = 1 THEN n + 1 ELSE n - 1 IN
                      IF K.pairs # 0 /\ size = 4 THEN (IF InV(m, n) /\ InV(m, other) THEN Maybe(n % 2 = 0) ELSE IF InV(m, n) \/ InV(m, other) THEN Open ELSE Bad)
                      ELSE Is(InV(m, n))
VOp(m, o, size) == IF Kind(o) \in {"v", "w"} THEN VReg(m, o, size) ELSE Mem(m, o)

(* ---- options ------------------------------------------------------------ *)
Has(c, x) == x \in Set(c.o)
Only(c, S) == Is(Set(c.o) \subseteq S)
B32(c) == Has(c, "32")
\* families of flags
Fams == {"LESS", "GREATER", "SIG_LESS", "SIG_GREATER", "OVERFLOW", "CARRY", "ATOMIC_STORED", "F_EQUAL", "F_LESS", "F_GREATER", "UNORDERED", "ORDERED_EQUAL",
         "ORDERED_LESS", "ORDERED_GREATER", "UNORDERED_OR_EQUAL", "UNORDERED_OR_LESS", "UNORDERED_OR_GREATER"}
FloatFams == {"F_EQUAL", "F_LESS", "F_GREATER", "UNORDERED", "ORDERED_EQUAL", "ORDERED_LESS", "ORDERED_GREATER", "UNORDERED_OR_EQUAL", "UNORDERED_OR_LESS", "UNORDERED_OR_GREATER"}
IntFams == {"LESS", "GREATER", "SIG_LESS", "SIG_GREATER", "OVERFLOW", "CARRY"}
\* the family a call sets is c.fl ("none" if no SET_ option is given)
Status(c) == c.fl # "none" \/ Has(c, "SET_Z")
NoStatus(c) == Is(~Status(c))
Available(m, fam) == IF fam = "Z" THEN m.z
                     ELSE IF m.fl = "any" THEN Open
                     ELSE IF m.fl = fam THEN Good
                     ELSE IF K.uno # 0 /\ fam = "UNORDERED" /\ m.fl \in FloatFams \ {"F_EQUAL", "F_LESS", "F_GREATER"} THEN Open ELSE Bad
Forget(m) == [m EXCEPT !.fl = "none", !.z = Bad, !.b32 = FALSE]
\* flags may be destroyed, but the library is free not to notice when they are used
Unknown(m) == IF m.fl = "none" /\ m.z = Bad THEN m ELSE [m EXCEPT !.fl = "any", !.z = Open]
Sets(m, c) == [m EXCEPT !.fl = c.fl, !.z = Is(Has(c, "SET_Z")), !.b32 = B32(c)]
\* the carry flag can be used by one jump or select
\* (whether it survives the use of the zero flag is left to the library)
Used(m, fam) == IF m.fl # "CARRY" THEN m ELSE IF fam = "CARRY" THEN Forget(m) ELSE Unknown(m)

(* ---- declarations ------------------------------------------------------- *)
\* n: options, return type, arguments, registers; types: w W 4 5 p P d f, capitals are scratch registers
Words == {"w", "W", "4", "5", "p", "P"}
ScratchArg == {"W", "5", "P"}
Count(s, S) == Cardinality({i \in DOMAIN s : s[i] \in S})
ScratchEnd(s) == LET P == {Cardinality({j \in DOMAIN s : j <= i /\ s[j] \in Words}) : i \in {x \in DOMAIN s : s[x] \in ScratchArg}} IN
                 IF P = {} THEN 0 ELSE CHOOSE p \in P : \A q \in P : q <= p
Returned(r, sc, fsc) == IF r = "v" THEN Good ELSE IF r \in {"d", "f"} THEN Is(fsc > 0) ELSE IF r \in {"w", "4", "p"} THEN Is(sc > 0) ELSE Bad
Declare(c) ==
  LET d == c.n args == Tail(c.s) ra == Has(c, "REG_ARG") kept == d[8] IN
  All(<<Only(c, {"REG_ARG", "VEX"}), Is(Has(c, "VEX") => K.vex # 0),
        Is(kept > 0 => ra), Is(kept \in 0..3), Is(kept <= d[2]),
        Is(d[1] >= 0 /\ d[2] >= 0 /\ d[1] + d[2] <= K.nr /\ d[2] <= K.ns),
        Is(d[3] >= 0 /\ d[4] >= 0 /\ d[3] + d[4] <= K.nf /\ d[4] <= K.nfs),
        Is(d[5] >= 0 /\ d[6] >= 0 /\ d[5] + d[6] <= K.nv /\ d[6] <= K.nvs),
        Is(d[7] >= 0 /\ d[7] <= K.maxlocal),
        Is(Len(args) <= 4), Returned(c.s[1], d[1], d[3]),
        Is(Count(args, Words \ ScratchArg) <= (IF ra THEN 0 ELSE d[2])), Is(ScratchEnd(args) <= d[1]), Is(Count(args, {"d", "f"}) <= d[3])>>)
Declared(m, c) ==
  [Forget(m) EXCEPT !.ctx = TRUE, !.sc = c.n[1], !.sv = c.n[2], !.fsc = c.n[3], !.fsv = c.n[4], !.vsc = c.n[5], !.vsv = c.n[6], !.loc = c.n[7],
   !.ret = c.s[1], !.ra = Has(c, "REG_ARG")]
\* float registers may be shared with vectors
Few(m, n) == IF n <= m.fsc THEN Good ELSE IF K.sep = 0 /\ n <= m.vsc THEN Open ELSE Bad
CallArgs(m, s) == LET args == Tail(s) IN
  All(<<Is(m.ctx), Is(Len(args) <= 4), IF s[1] \in {"d", "f"} THEN Few(m, 1) ELSE Returned(s[1], m.sc, m.fsc), Is(Count(args, ScratchArg) = 0),
        Is(Count(args, Words) <= m.sc), Few(m, Count(args, {"d", "f"}))>>)
Tailcall(m, c) == IF Has(c, "CALL_RETURN") THEN Is(c.s[1] = m.ret /\ ((c.op = "CALL_REG_ARG") <=> m.ra)) ELSE Good

(* ---- operations --------------------------------------------------------- *)
Small == {"MOV_U8", "MOV_S8", "MOV_U16", "MOV_S16"}
Moves == Small \cup {"MOV", "MOV_U32", "MOV_S32", "MOV32", "MOV_P"}
Counts == {"CLZ", "CTZ", "REV", "REV_U16", "REV_S16"}
Full == {"REV_U32", "REV_S32"}
Arith == {"ADD", "ADDC", "SUB", "SUBC", "MUL", "AND", "OR", "XOR", "SHL", "MSHL", "LSHR", "MLSHR", "ASHR", "MASHR", "ROTL", "ROTR"}
ZOps == {"AND", "OR", "XOR", "SHL", "MSHL", "LSHR", "MLSHR", "ASHR", "MASHR"}
\* flags which an operation can set
Settable(m, op, fl, z, b32) ==
  CASE op \in ZOps -> Is(fl = "none")
    [] op = "MUL" -> Is(~z /\ fl \in {"none", "OVERFLOW"})
    [] op = "ADD" -> Is(fl \in {"none", "CARRY", "OVERFLOW"})
    [] op = "SUB" -> Is(fl \in {"none"} \cup IntFams)
    [] op \in {"ADDC", "SUBC"} -> All(<<Is(fl \in {"none", "CARRY"}), Maybe(~z), Available(m, "CARRY"), IF m.fl = "any" THEN Open ELSE Is(m.b32 = b32)>>)
    [] op \in {"ROTL", "ROTR"} -> Is(fl = "none" /\ ~z)
    [] OTHER -> Bad
Op2Opts == {"32", "SET_Z"}
FOne == {"MOV_F64", "CONV_F64_FROM_F32", "CONV_SW_FROM_F64", "CONV_S32_FROM_F64", "CONV_F64_FROM_SW", "CONV_F64_FROM_S32", "CONV_F64_FROM_UW", "CONV_F64_FROM_U32", "CMP_F64", "NEG_F64", "ABS_F64"}
Fpu == Is(K.fpu # 0)
Simd == Is(K.simd # 0)
\* vector type: register size, element size, second size (exponents of two; the second is alignment or target size)
Rs(c) == c.n[1]
Es(c) == c.n[2]
E2(c) == c.n[3]
RsOk(c) == Is(Rs(c) \in 3..6)
Lane(c, l) == Is(l >= 0 /\ (Rs(c) < Es(c) \/ l < 2 ^ (Rs(c) - Es(c))))

Verdict(m, c) ==
  LET a == c.a f == c.f op == c.op IN
  CASE f \in {"enter", "ectx"} -> Declare(c)
    [] f = "op0" ->
         All(<<CASE op \in {"BREAKPOINT", "NOP", "LMUL_UW", "LMUL_SW", "MEMORY_BARRIER", "ENDBR", "SKIP_FRAMES_BEFORE_RETURN"} -> Only(c, {})
                 [] op \in {"DIVMOD_UW", "DIVMOD_SW", "DIV_UW", "DIV_SW"} -> Only(c, {"32"})
                 [] OTHER -> Bad,
               NoStatus(c),
               IF op \in {"LMUL_UW", "LMUL_SW", "DIVMOD_UW", "DIVMOD_SW", "DIV_UW", "DIV_SW"} THEN Is(m.ctx /\ m.sc >= 2) ELSE Maybe(m.ctx)>>)
    [] f = "op1" ->
         All(<<NoStatus(c), Only(c, IF op \in Small \cup Counts THEN {"32"} ELSE {}), Is(op \in Moves \cup Counts \cup Full), Is(Kind(a[2]) = "#" => op \in Moves), Dst(m, a[1]), Src(m, a[2])>>)
    [] f \in {"op2", "op2u"} ->
         All(<<Is(op \in Arith), Only(c, Op2Opts), Settable(m, op, c.fl, Has(c, "SET_Z"), B32(c)),
               IF f = "op2u" THEN Is(Status(c)) ELSE Dst(m, a[1]), Src(m, a[Len(a) - 1]), Src(m, a[Len(a)])>>)
    [] f = "op2r" -> All(<<Is(op = "MULADD"), Only(c, {"32"}), NoStatus(c), Reg(m, a[1]), Src(m, a[2]), Src(m, a[3])>>)
    [] f = "shi" ->
         All(<<Is(op \in {"SHL", "LSHR", "MSHL", "MLSHR"}), Only(c, {"32", "NZ"}), NoStatus(c), Reg(m, a[1]), Reg(m, a[2]), Reg(m, a[3]), Src(m, a[4]),
               Is(~IsGp(a[1]) \/ ~IsGp(a[3]) \/ GpNum(a[1]) # GpNum(a[3]))>>)
    [] f = "ops" ->
         All(<<Only(c, {}), NoStatus(c), Is(op \in {"FAST_RETURN", "SKIP_FRAMES_BEFORE_FAST_RETURN", "PREFETCH_L1", "PREFETCH_L2", "PREFETCH_L3", "PREFETCH_ONCE"}), Src(m, a[1]),
               IF op \in {"FAST_RETURN", "SKIP_FRAMES_BEFORE_FAST_RETURN"} THEN Is(Kind(a[1]) # "#") ELSE Is(IsMem(a[1]))>>)
    [] f = "opd" -> All(<<Only(c, {}), NoStatus(c), Is(op \in {"FAST_ENTER", "GET_RETURN_ADDRESS"}), Dst(m, a[1])>>)
    [] f = "rawc" -> All(<<Is(c.n[2] >= 0), IF K.vex # 0 THEN Is(c.n[1] \in 1..15)
                           ELSE IF K.align = 1 THEN Is(c.n[1] \in {2, 4, 6})
                           ELSE IF K.align = 0 THEN Is((c.n[1] = 2 /\ c.n[2] % 2 = 0) \/ (c.n[1] = 4 /\ c.n[2] % 4 = 0)) ELSE Is(c.n[1] = 4 /\ c.n[2] % 4 = 0)>>)
    [] f = "fop1" ->
         All(<<Fpu, Is(op \in FOne), Only(c, {"32"}),
               IF op = "CMP_F64" THEN Is(~Has(c, "SET_Z") /\ c.fl \in FloatFams) ELSE NoStatus(c),
               CASE op \in {"CONV_SW_FROM_F64", "CONV_S32_FROM_F64"} -> All(<<Dst(m, a[1]), FOp(m, a[2], B32(c))>>)
                 [] op \in {"CONV_F64_FROM_SW", "CONV_F64_FROM_S32", "CONV_F64_FROM_UW", "CONV_F64_FROM_U32"} -> All(<<FOp(m, a[1], B32(c)), Src(m, a[2])>>)
                 \* the two operands of this conversion have different sizes
                 [] op = "CONV_F64_FROM_F32" -> All(<<FOp(m, a[1], B32(c)), FOp(m, a[2], B32(c)), Maybe(Kind(a[1]) # "x" /\ Kind(a[2]) # "x")>>)
                 [] OTHER -> All(<<FOp(m, a[1], B32(c)), FOp(m, a[2], B32(c))>>)>>)
    [] f = "fop2" -> All(<<Fpu, Is(op \in {"ADD_F64", "SUB_F64", "MUL_F64", "DIV_F64"}), Only(c, {"32"}), NoStatus(c), FOp(m, a[1], B32(c)), FOp(m, a[2], B32(c)), FOp(m, a[3], B32(c))>>)
    [] f = "fop2r" -> All(<<Fpu, Is(op = "COPYSIGN_F64"), Only(c, {"32"}), NoStatus(c), FReg(m, a[1], B32(c)), FOp(m, a[2], B32(c)), FOp(m, a[3], B32(c))>>)
    [] f = "fset32" -> All(<<Fpu, FReg(m, a[1], TRUE)>>)
    [] f = "fset64" -> All(<<Fpu, FReg(m, a[1], FALSE)>>)
    [] f = "fcopy" ->
         All(<<Fpu, Is(op \in {"COPY_TO_F64", "COPY_FROM_F64"}), Only(c, {"32"}), NoStatus(c), FReg(m, a[1], B32(c)),
               IF Kind(a[2]) = "P" THEN (IF K.w = 4 /\ ~B32(c) THEN All(<<Reg(m, a[2][2]), Reg(m, a[2][3]), Is(op = "COPY_TO_F64" \/ GpNum(a[2][2]) # GpNum(a[2][3]))>>) ELSE Bad)
               ELSE Reg(m, a[2])>>)
    [] f = "label" -> Good
    [] f = "alabel" -> Is(c.n[1] \in 0..4)
    [] f = "jmp" -> All(<<Only(c, {"REWRITABLE_JUMP"}), IF op \in {"JUMP", "FAST_CALL"} THEN Good ELSE IF c.fam = "none" THEN Bad ELSE Available(m, c.fam)>>)
    [] f = "scall" -> All(<<Only(c, {"REWRITABLE_JUMP", "CALL_RETURN"}), Is(op \in {"CALL", "CALL_REG_ARG"}), CallArgs(m, c.s), Tailcall(m, c)>>)
    [] f = "sicall" -> All(<<Only(c, {"CALL_RETURN"}), Is(op \in {"CALL", "CALL_REG_ARG"}), CallArgs(m, c.s), Src(m, a[1]), Tailcall(m, c)>>)
    [] f = "cmp" -> All(<<Only(c, {"REWRITABLE_JUMP", "32"}), Is(c.fam \in {"Z", "LESS", "GREATER", "SIG_LESS", "SIG_GREATER"}), Src(m, a[1]), Src(m, a[2])>>)
    [] f = "fcmp" -> All(<<Fpu, Only(c, {"REWRITABLE_JUMP", "32"}), Is(c.fam \in FloatFams), FOp(m, a[1], B32(c)), FOp(m, a[2], B32(c))>>)
    [] f = "op2cmpz" ->
         All(<<Is(op \in Arith \ {"MUL", "ROTL", "ROTR"}), Only(c, Op2Opts \cup {"REWRITABLE_JUMP"}), Settable(m, op, c.fl, TRUE, B32(c)),
               Dst(m, a[1]), Src(m, a[2]), Src(m, a[3])>>)
    [] f = "ijmp" -> All(<<Only(c, {}), Is(op \in {"JUMP", "FAST_CALL"}), Src(m, a[1])>>)
    [] f = "opf" ->
         All(<<Only(c, IF op = "MOV" THEN {} ELSE IF op = "MOV32" THEN {} ELSE Op2Opts), Is(op \in {"MOV", "MOV32", "AND", "OR", "XOR"}), Is(c.fl = "none"),
               IF c.fam = "none" THEN Bad ELSE Available(m, c.fam), Dst(m, a[1])>>)
    [] f = "sel" -> All(<<Only(c, {"32"}), IF c.fam = "none" THEN Bad ELSE Available(m, c.fam), Reg(m, a[1]), Src(m, a[2]), Reg(m, a[3])>>)
    [] f = "fsel" -> All(<<Only(c, {"32"}), IF c.fam = "none" THEN Bad ELSE Available(m, c.fam), FReg(m, a[1], B32(c)), FOp(m, a[2], B32(c)), FReg(m, a[3], B32(c))>>)
    [] f = "mem" ->
         LET un == Has(c, "MEM_UNALIGNED") a16 == Has(c, "MEM_ALIGNED_16") a32 == Has(c, "MEM_ALIGNED_32") pair == Kind(a[1]) = "P" IN
         All(<<Only(c, {"32", "MEM_STORE", "MEM_UNALIGNED", "MEM_ALIGNED_16", "MEM_ALIGNED_32"}), NoStatus(c), Is(Cardinality(Set(c.o) \cap {"MEM_UNALIGNED", "MEM_ALIGNED_16", "MEM_ALIGNED_32"}) <= 1),
               IF pair THEN All(<<Is(op = "MOV"), Maybe(~B32(c)), Reg(m, a[1][2]), Reg(m, a[1][3]), Is(GpNum(a[1][2]) # GpNum(a[1][3]))>>)
               ELSE All(<<Is(op \in Moves), Is(B32(c) => op \in Small), Maybe(un \/ (a16 /\ op \notin Small) \/ (a32 /\ op \in {"MOV", "MOV_P"})), Reg(m, a[1])>>),
               Mem(m, a[2])>>)
    [] f = "memu" ->
         All(<<Only(c, {"32", "MEM_STORE", "MEM_POST", "MEM_SUPP"}), NoStatus(c), Is(op \in Moves), Is(B32(c) => op \in Small), Reg(m, a[1]), Mem(m, a[2]), Is(Kind(a[2]) \in {"M", "N"}),
               IF Kind(a[2]) \in {"M", "N"} THEN Is(~IsGp(a[1]) \/ GpNum(a[1]) # GpNum(a[2][2])) ELSE Bad>>)
    [] f = "fmem" ->
         LET un == Has(c, "MEM_UNALIGNED") a16 == Has(c, "MEM_ALIGNED_16") a32 == Has(c, "MEM_ALIGNED_32") IN
         All(<<Fpu, Is(op = "MOV_F64"), NoStatus(c), Only(c, {"32", "MEM_STORE", "MEM_UNALIGNED", "MEM_ALIGNED_16", "MEM_ALIGNED_32"}),
               Is(Cardinality(Set(c.o) \cap {"MEM_UNALIGNED", "MEM_ALIGNED_16", "MEM_ALIGNED_32"}) <= 1), Maybe(un \/ a16 \/ (a32 /\ ~B32(c))), FReg(m, a[1], B32(c)), Mem(m, a[2])>>)
    [] f = "fmemu" -> All(<<Fpu, Is(op = "MOV_F64"), NoStatus(c), Only(c, {"32", "MEM_STORE", "MEM_POST", "MEM_SUPP"}), FReg(m, a[1], B32(c)), Mem(m, a[2]), Is(Kind(a[2]) \in {"M", "N"})>>)
    [] f = "smov" ->
         All(<<Simd, Only(c, {"SIMD_STORE", "SIMD_FLOAT", "SIMD_TEST"}), RsOk(c), Is(Es(c) <= Rs(c)), Is(E2(c) <= (IF IsMem(a[2]) THEN Rs(c) ELSE 0)), VReg(m, a[1], Rs(c)), VOp(m, a[2], Rs(c))>>)
    [] f = "srep" ->
         All(<<Simd, Only(c, {"SIMD_FLOAT", "SIMD_TEST"}), RsOk(c), Is(Es(c) < Rs(c)), VReg(m, a[1], Rs(c)), Maybe(E2(c) = 0),
               IF Has(c, "SIMD_FLOAT") THEN (IF Kind(a[2]) = "#" THEN Is(a[2][2] = 0) ELSE FOp(m, a[2], Es(c) = 2)) ELSE Src(m, a[2])>>)
    [] f = "slane" ->
         LET st == Has(c, "SIMD_STORE") fl == Has(c, "SIMD_FLOAT") sg == Has(c, "SIMD_LANE_SIGNED") IN
         All(<<Simd, Only(c, {"SIMD_STORE", "SIMD_FLOAT", "SIMD_TEST", "SIMD_LANE_ZERO", "SIMD_LANE_SIGNED", "32"}), RsOk(c), Is(Es(c) < Rs(c)), VReg(m, a[1], Rs(c)), Maybe(E2(c) = 0),
               Is(~(st /\ Has(c, "SIMD_LANE_ZERO"))), Is(sg => st), Is(fl => ~sg /\ ~B32(c)), Is(B32(c) => Es(c) <= 2), Lane(c, c.n[4]),
               IF fl THEN FOp(m, a[2], Es(c) = 2) ELSE IF st THEN Dst(m, a[2]) ELSE Src(m, a[2])>>)
    [] f = "slrep" -> All(<<Simd, Only(c, {"SIMD_FLOAT", "SIMD_TEST"}), RsOk(c), Is(Es(c) < Rs(c)), VReg(m, a[1], Rs(c)), VReg(m, a[2], Rs(c)), Lane(c, c.n[4]), Maybe(E2(c) = 0)>>)
    [] f = "sext" ->
         All(<<Simd, Only(c, {"SIMD_FLOAT", "SIMD_TEST", "SIMD_EXTEND_SIGNED"}), RsOk(c), Is(E2(c) < Rs(c)), Is(Es(c) < E2(c)), Is(~(Has(c, "SIMD_FLOAT") /\ Has(c, "SIMD_EXTEND_SIGNED"))),
               VReg(m, a[1], Rs(c)), VOp(m, a[2], Rs(c))>>)
    [] f = "ssign" -> All(<<Simd, Only(c, {"SIMD_FLOAT", "SIMD_TEST", "SIMD_STORE", "32"}), Is(Has(c, "SIMD_STORE")), RsOk(c), Is(Es(c) < Rs(c)), VReg(m, a[1], Rs(c)), Dst(m, a[2]), Maybe(E2(c) = 0)>>)
    [] f = "sop2" ->
         All(<<Simd, Only(c, {"SIMD_FLOAT", "SIMD_TEST"}), Is(op \in {"SIMD_OP2_AND", "SIMD_OP2_OR", "SIMD_OP2_XOR", "SIMD_OP2_SHUFFLE"}), RsOk(c), Is(Es(c) <= Rs(c)),
               Is(op = "SIMD_OP2_SHUFFLE" => Es(c) = 0 /\ ~Has(c, "SIMD_FLOAT")), Is(E2(c) <= (IF IsMem(a[3]) THEN Rs(c) ELSE 0)), VReg(m, a[1], Rs(c)), VReg(m, a[2], Rs(c)), VOp(m, a[3], Rs(c))>>)
    [] f = "aload" ->
         All(<<Is(K.atomic # 0), Is(op \in Moves), Only(c, {"32", "SET_Z", "ATOMIC_TEST", "ATOMIC_USE_CAS", "ATOMIC_USE_LS"}), Maybe(~Status(c)), Is(~(Has(c, "ATOMIC_USE_CAS") /\ Has(c, "ATOMIC_USE_LS"))),
               Is(B32(c) => op \in Small), Reg(m, a[1]), Address(m, a[2])>>)
    [] f = "astore" ->
         All(<<Is(K.atomic # 0), Is(op \in Moves), Only(c, {"32", "SET_Z", "ATOMIC_TEST", "ATOMIC_USE_CAS", "ATOMIC_USE_LS"}), Maybe(~Has(c, "SET_Z")), Is(c.fl \in {"none", "ATOMIC_STORED"}),
               Is(~(Has(c, "ATOMIC_USE_CAS") /\ Has(c, "ATOMIC_USE_LS"))), Is(B32(c) => op \in Small), Reg(m, a[1]), Address(m, a[2]), Reg(m, a[3]),
               IF IsGp(a[1]) /\ IsGp(a[3]) /\ GpNum(a[1]) = GpNum(a[3]) THEN Maybe(FALSE) ELSE Good>>)
    [] f = "lbase" -> Dst(m, a[1])
    [] f = "const" -> All(<<Is(op \in {"MOV", "MOV_S32", "MOV32", "MOV_U8"}), Only(c, IF op = "MOV_U8" THEN {"32"} ELSE {}), NoStatus(c), Dst(m, a[1])>>)
    [] f = "opaddr" -> All(<<Only(c, {}), Is(op \in {"MOV_ADDR", "MOV_ABS_ADDR", "ADD_ABS_ADDR"}), Dst(m, a[1])>>)
    [] f = "ret" ->
         All(<<NoStatus(c), Only(c, {"32"}), Is(m.ctx),
               CASE m.ret = "w" -> Is(op \in Small \cup {"MOV", "MOV_U32", "MOV_S32"} /\ ~B32(c))
                 [] m.ret = "4" -> Is((op \in Small /\ B32(c)) \/ (op = "MOV32" /\ ~B32(c)))
                 [] m.ret = "p" -> Is(op = "MOV_P" /\ ~B32(c))
                 [] m.ret = "d" -> Is(op = "MOV_F64" /\ ~B32(c))
                 [] m.ret = "f" -> Is(op = "MOV_F64" /\ B32(c))
                 [] OTHER -> Bad,
               IF op = "MOV_F64" THEN All(<<Fpu, FOp(m, a[1], B32(c))>>) ELSE Src(m, a[1])>>)
    [] f = "retv" -> IF m.ctx THEN Is(m.ret = "v") ELSE Open
    [] f = "retto" -> Src(m, a[1])
    [] f = "gen" -> All(<<Is(m.open = 0), Is(m.any), Is(c.n[1] \in {0}), Maybe(m.ctx)>>)
    [] OTHER -> Bad

(* ---- what a valid call changes ------------------------------------------ *)
Test(c) == Set(c.o) \cap {"MEM_SUPP", "SIMD_TEST", "ATOMIC_TEST"} # {}
Jump(m, c) == IF c.n # <<>> /\ c.n[1] < 0 THEN [m EXCEPT !.open = @ + 1] ELSE m
Effect(m, c) ==
  LET f == c.f op == c.op
      k == CASE f \in {"enter", "ectx"} -> Declared(m, c)
             [] f = "op0" /\ op \notin {"BREAKPOINT", "NOP", "MEMORY_BARRIER", "ENDBR"} -> Forget(m)
             [] f = "op1" /\ op \in Counts \cup Full -> Unknown(m)
             [] f \in {"shi", "retto", "retv", "scall", "sicall", "fop2", "fop2r", "lbase"} -> Unknown(m)
             \* compares may leave the flags of their comparison
             [] f \in {"cmp", "fcmp"} -> [m EXCEPT !.fl = "any", !.z = Open]
             [] f \in {"op2", "op2u"} -> Sets(m, c)
             [] f \in {"op2r", "rawc", "label", "alabel", "ret"} -> Forget(m)
             [] f = "fop1" /\ op = "CMP_F64" -> [Sets(m, c) EXCEPT !.z = Bad]
             [] f = "fop1" /\ op # "MOV_F64" -> Unknown(m)
             [] f = "ops" /\ op = "SKIP_FRAMES_BEFORE_FAST_RETURN" -> Forget(m)
             [] (f = "ops" /\ op = "FAST_RETURN") \/ (f = "opd" /\ op = "FAST_ENTER") -> Unknown(m)
             [] f = "op2cmpz" -> [Sets(m, c) EXCEPT !.z = Bad]
             [] f = "opf" /\ op \in {"AND", "OR", "XOR"} -> Sets(m, c)
             [] f \in {"jmp", "sel", "fsel"} -> IF f = "fsel" /\ m.fl = "CARRY" THEN Forget(m) ELSE IF c.fam = "none" THEN m ELSE Used(m, c.fam)
             [] f = "astore" /\ ~Test(c) -> [Sets(m, c) EXCEPT !.z = Bad, !.b32 = FALSE]
             [] OTHER -> m
      j == IF f \in {"jmp", "scall", "cmp", "fcmp", "op2cmpz", "opaddr"} THEN Jump(k, c) ELSE k
  IN [j EXCEPT !.any = m.any \/ f # "ectx"]

\* calls which may answer that the processor has no such instruction
Optional(c) == (c.f \in {"memu", "fmemu", "smov", "srep", "slane", "slrep", "sext", "ssign", "sop2", "aload", "astore"}) \/ (c.f = "op0" /\ c.op = "MEMORY_BARRIER")

(* ---- one call ----------------------------------------------------------- *)
\* rc, err: the result and the error of the compiler after it, grew: something was added
Accepted(c, rc, err) == IF c.f = "gen" THEN rc = COMPILED /\ err = COMPILED
                        ELSE (rc = OK /\ err = OK) \/ (Optional(c) /\ rc = UNSUPPORTED /\ err = OK)
Rejected(c, rc, err, grew) == rc = BADARG /\ err = BADARG /\ grew = 0
Answer(m, c, rc, err, grew) ==
  IF m.bad THEN Rejected(c, rc, err, grew)
  ELSE LET v == Verdict(m, c) IN
    \/ v # Bad /\ Accepted(c, rc, err) /\ ((Test(c) \/ rc = UNSUPPORTED \/ c.f = "ectx") => grew = 0)
    \/ v # Good /\ Rejected(c, rc, err, grew)
After(m, c, rc) == IF m.bad THEN m ELSE IF rc = BADARG THEN [m EXCEPT !.bad = TRUE] 
               ELSE IF rc = UNSUPPORTED THEN (IF c.f = "astore" THEN [m EXCEPT !.fl = "any", !.z = Open] ELSE m) ELSE Effect(m, c)
=============================================================================
