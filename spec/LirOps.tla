------------------------------ MODULE LirOps ------------------------------
(* Meaning of the integer operations, flags and conditions of the LIR, as   *)
(* functions of operand words (the "what" of sljitLir.h).                   *)
EXTENDS Words

\* op1 moves: transfer size in bytes (0: width of the operation) and sign
MovSize(n, w) ==
  CASE n \in {"MOV_U8", "MOV_S8"} -> 1
    [] n \in {"MOV_U16", "MOV_S16", "REV_U16", "REV_S16"} -> 2
    [] n \in {"MOV_U32", "MOV_S32", "MOV32", "REV_U32", "REV_S32"} -> 4
    [] OTHER -> w                       \* MOV, MOV_P, CLZ, CTZ, REV
MovSigned(n) == n \in {"MOV_S8", "MOV_S16", "MOV_S32", "REV_S16", "REV_S32"}
IsMove(n) == n \in {"MOV", "MOV_U8", "MOV_S8", "MOV_U16", "MOV_S16", "MOV_U32", "MOV_S32", "MOV32", "MOV_P"}
\* sizes a store of the result uses
StoreSize(n, w) == IF n \in {"CLZ", "CTZ"} THEN w ELSE MovSize(n, w)

\* result of op1 n of width w on the source value v (v has MovSize bytes)
Op1Val(n, v, w) ==
  CASE IsMove(n) -> IF MovSigned(n) THEN SExt(v, w) ELSE ZExt(v, w)
    [] n = "CLZ" -> OfNat(Clz(v), w)
    [] n = "CTZ" -> OfNat(Ctz(v), w)
    [] n = "REV" -> Reverse(v)
    [] n \in {"REV_U16", "REV_U32"} -> ZExt(Reverse(v), w)
    [] n \in {"REV_S16", "REV_S32"} -> SExt(Reverse(v), w)

ShiftAmount(b) == (b[1] % (8 * Len(b)))       \* masked by the bit length

ShiftOps == {"SHL", "MSHL", "LSHR", "MLSHR", "ASHR", "MASHR", "ROTL", "ROTR"}
Op2Val(n, a, b, c) ==
  CASE n = "ADD"  -> Add(a, b)
    [] n = "ADDC" -> AddC(a, b, c)[1]
    [] n = "SUB"  -> Sub(a, b)
    [] n = "SUBC" -> SubB(a, b, c)[1]
    [] n = "MUL"  -> Mul(a, b)
    [] n = "AND"  -> AndW(a, b)
    [] n = "OR"   -> OrW(a, b)
    [] n = "XOR"  -> XorW(a, b)
    [] n \in {"SHL", "MSHL"}   -> Shl(a, ShiftAmount(b))
    [] n \in {"LSHR", "MLSHR"} -> Lshr(a, ShiftAmount(b))
    [] n \in {"ASHR", "MASHR"} -> Ashr(a, ShiftAmount(b))
    [] n = "ROTL" -> Rotl(a, ShiftAmount(b))
    [] n = "ROTR" -> Rotr(a, ShiftAmount(b))

Bit(p) == IF p THEN 1 ELSE 0
\* value of the variable flag of type t after operation n on a, b (carry in c)
FlagVal(n, t, a, b, c) ==
  CASE t = "LESS"        -> Bit(Ult(a, b))
    [] t = "GREATER"     -> Bit(Ult(b, a))
    [] t = "SIG_LESS"    -> Bit(Slt(a, b))
    [] t = "SIG_GREATER" -> Bit(Slt(b, a))
    [] t = "OVERFLOW" /\ n = "ADD" -> Bit(AddOvf(a, b, 0))
    [] t = "OVERFLOW" /\ n = "SUB" -> Bit(SubOvf(a, b, 0))
    [] t = "OVERFLOW" /\ n = "MUL" -> Bit(MulOvf(a, b))
    [] t = "CARRY" /\ n \in {"ADD", "ADDC"} -> AddC(a, b, c)[2]
    [] t = "CARRY" /\ n \in {"SUB", "SUBC"} -> SubB(a, b, c)[2]

\* conditions: <<flag they read, value of the flag that makes them true>>
Cond ==
  [ EQUAL |-> <<"Z", 1>>, NOT_EQUAL |-> <<"Z", 0>>, ZERO |-> <<"Z", 1>>, NOT_ZERO |-> <<"Z", 0>>,
    LESS |-> <<"LESS", 1>>, GREATER_EQUAL |-> <<"LESS", 0>>,
    GREATER |-> <<"GREATER", 1>>, LESS_EQUAL |-> <<"GREATER", 0>>,
    SIG_LESS |-> <<"SIG_LESS", 1>>, SIG_GREATER_EQUAL |-> <<"SIG_LESS", 0>>,
    SIG_GREATER |-> <<"SIG_GREATER", 1>>, SIG_LESS_EQUAL |-> <<"SIG_GREATER", 0>>,
    OVERFLOW |-> <<"OVERFLOW", 1>>, NOT_OVERFLOW |-> <<"OVERFLOW", 0>>,
    CARRY |-> <<"CARRY", 1>>, NOT_CARRY |-> <<"CARRY", 0>>,
    ATOMIC_STORED |-> <<"ATOMIC_STORED", 1>>, ATOMIC_NOT_STORED |-> <<"ATOMIC_STORED", 0>>,
    F_EQUAL |-> <<"F_EQUAL", 1>>, F_NOT_EQUAL |-> <<"F_EQUAL", 0>>,
    F_LESS |-> <<"F_LESS", 1>>, F_GREATER_EQUAL |-> <<"F_LESS", 0>>,
    F_GREATER |-> <<"F_GREATER", 1>>, F_LESS_EQUAL |-> <<"F_GREATER", 0>>,
    UNORDERED |-> <<"UNORDERED", 1>>, ORDERED |-> <<"UNORDERED", 0>>,
    ORDERED_EQUAL |-> <<"ORDERED_EQUAL", 1>>, UNORDERED_OR_NOT_EQUAL |-> <<"ORDERED_EQUAL", 0>>,
    ORDERED_LESS |-> <<"ORDERED_LESS", 1>>, UNORDERED_OR_GREATER_EQUAL |-> <<"ORDERED_LESS", 0>>,
    ORDERED_GREATER |-> <<"ORDERED_GREATER", 1>>, UNORDERED_OR_LESS_EQUAL |-> <<"ORDERED_GREATER", 0>>,
    UNORDERED_OR_EQUAL |-> <<"UNORDERED_OR_EQUAL", 1>>, ORDERED_NOT_EQUAL |-> <<"UNORDERED_OR_EQUAL", 0>>,
    UNORDERED_OR_LESS |-> <<"UNORDERED_OR_LESS", 1>>, ORDERED_GREATER_EQUAL |-> <<"UNORDERED_OR_LESS", 0>>,
    UNORDERED_OR_GREATER |-> <<"UNORDERED_OR_GREATER", 1>>, ORDERED_LESS_EQUAL |-> <<"UNORDERED_OR_GREATER", 0>> ]

\* truth of an integer comparison condition on a, b (sljit_emit_cmp)
CmpTrue(c, a, b) ==
  CASE c = "EQUAL" -> a = b             [] c = "NOT_EQUAL" -> a # b
    [] c = "LESS" -> Ult(a, b)          [] c = "GREATER_EQUAL" -> ~Ult(a, b)
    [] c = "GREATER" -> Ult(b, a)       [] c = "LESS_EQUAL" -> ~Ult(b, a)
    [] c = "SIG_LESS" -> Slt(a, b)      [] c = "SIG_GREATER_EQUAL" -> ~Slt(a, b)
    [] c = "SIG_GREATER" -> Slt(b, a)   [] c = "SIG_LESS_EQUAL" -> ~Slt(b, a)
=============================================================================
