----------------------------- MODULE LirFloat -----------------------------
(* IEEE 754 binary32 / binary64 on bit patterns (a word of 4 or 8 bytes),   *)
(* computed exactly over arbitrary length words and rounded once.          *)
(* A result that is some NaN with an unspecified payload is AnyNaN(w).     *)
EXTENDS Words

\* general binary format: width in bits, fraction bits (LawBits scales it down in FloatLaws)
FracBits(w) == CASE w = 4 -> 23 [] w = 8 -> 52 [] w = 7 -> 3
ExpBits(w)  == CASE w = 4 -> 8 [] w = 8 -> 11 [] w = 7 -> 3
Bias(w) == 2^(ExpBits(w) - 1) - 1
EMax(w) == 2^ExpBits(w) - 1

AnyNaN(w) == [i \in 1..w |-> -3]
IsAnyNaN(v) == Len(v) > 0 /\ v[1] = -3
Wd(v) == Len(v)
FSign(v) == Msb(v)
FExp(v) == ToNat(LET s == Lshr(v, FracBits(Wd(v))) IN SubSeq(s, 1, IF Len(s) > 3 THEN 3 ELSE Len(s))) % 2^ExpBits(Wd(v))
FFrac(v) == LET k == Bits(v) - FracBits(Wd(v)) IN Lshr(Shl(v, k), k)
MagBits(v) == Lshr(Shl(v, 1), 1)             \* bit pattern without the sign
InfBits(w) == Shl(OfNat(EMax(w), w), FracBits(w))
IsNaN(v)  == IsAnyNaN(v) \/ Ult(InfBits(Wd(v)), MagBits(v))
IsInf(v)  == MagBits(v) = InfBits(Wd(v))
IsFZero(v) == IsZero(MagBits(v))
WithSign(m, s) == IF s = 1 THEN SetBit(m, Bits(m) - 1) ELSE m
Inf(s, w) == WithSign(InfBits(w), s)
FZero(s, w) == WithSign(Zero(w), s)
\* magnitude = SigM * 2^SigE
SigM(v) == IF FExp(v) = 0 THEN FFrac(v) ELSE SetBit(FFrac(v), FracBits(Wd(v)))
SigE(v) == (IF FExp(v) = 0 THEN 1 ELSE FExp(v)) - Bias(Wd(v)) - FracBits(Wd(v))

LimbsFor(bits) == (bits + LBITS - 1) \div LBITS
\* (-1)^s * (M * 2^E + something in [0, 2^E) if sticky) rounded to nearest even
Round(s, M, E, sticky, w) ==
  IF IsZero(M) THEN FZero(s, w) ELSE
  LET m == FracBits(w)
      l == BitLen(M)
      e == l - 1 + E
      emin == 1 - Bias(w)
      sub == e < emin
      q == (IF sub THEN emin ELSE e) - m
      drop == q - E
      kept0 == IF drop <= 0 THEN ZExt(Shl(ZExt(M, Len(M) + LimbsFor(-drop)), -drop), w + 1)
               ELSE ZExt(Lshr(M, drop), w + 1)
      half == drop > 0 /\ drop <= Bits(M) /\ BitAt(M, drop - 1) = 1
      low == drop > 1 /\ (IF drop > Bits(M) THEN ~IsZero(M) ELSE Ctz(M) < drop - 1)
      up == half /\ (low \/ sticky \/ kept0[1] % 2 = 1)
      kept == Trunc(IF up THEN Inc(kept0) ELSE kept0, w)
      bits == IF sub THEN kept
              ELSE Add(Shl(OfNat(e + Bias(w) - 1, w), m), kept)   \* hidden bit adds one to the exponent
  IN IF e > Bias(w) \/ ~Ult(bits, InfBits(w)) THEN Inf(s, w) ELSE WithSign(bits, s)

FNeg(v) == IF IsNaN(v) THEN AnyNaN(Wd(v)) ELSE WithSign(MagBits(v), 1 - FSign(v))
FAbs(v) == IF IsNaN(v) THEN AnyNaN(Wd(v)) ELSE MagBits(v)
CopySign(a, b) == WithSign(MagBits(a), FSign(b))

FAddX(a, b, w) ==      \* both finite and non zero
  LET hi == IF SigE(a) >= SigE(b) THEN a ELSE b
      lo == IF SigE(a) >= SigE(b) THEN b ELSE a
      d == SigE(hi) - SigE(lo)
      k == IF d <= 128 THEN d ELSE 64
      n == w + LimbsFor(k) + 1
      mh == Shl(ZExt(SigM(hi), n), k)
      ml == ZExt(SigM(lo), n)
      e == SigE(hi) - k
      same == FSign(a) = FSign(b)
  IN IF d <= 128
     THEN IF same THEN Round(FSign(a), Add(mh, ml), e, FALSE, w)
          ELSE IF mh = ml THEN FZero(0, w)
          ELSE IF Ult(ml, mh) THEN Round(FSign(hi), Sub(mh, ml), e, FALSE, w)
          ELSE Round(FSign(lo), Sub(ml, mh), e, FALSE, w)
     ELSE IF same THEN Round(FSign(hi), mh, e, TRUE, w)
          ELSE Round(FSign(hi), Sub(mh, One(n)), e, TRUE, w)
FAdd(a, b) ==
  LET w == Wd(a) IN
  IF IsNaN(a) \/ IsNaN(b) THEN AnyNaN(w)
  ELSE IF IsInf(a) THEN (IF IsInf(b) /\ FSign(a) # FSign(b) THEN AnyNaN(w) ELSE a)
  ELSE IF IsInf(b) THEN b
  ELSE IF IsFZero(a) THEN (IF IsFZero(b) THEN FZero(IF FSign(a) = 1 /\ FSign(b) = 1 THEN 1 ELSE 0, w) ELSE b)
  ELSE IF IsFZero(b) THEN a
  ELSE FAddX(a, b, w)
FSub(a, b) == IF IsNaN(b) THEN AnyNaN(Wd(a)) ELSE FAdd(a, FNeg(b))
FMul(a, b) ==
  LET w == Wd(a)
      s == IF FSign(a) = FSign(b) THEN 0 ELSE 1 IN
  IF IsNaN(a) \/ IsNaN(b) THEN AnyNaN(w)
  ELSE IF IsInf(a) \/ IsInf(b) THEN (IF IsFZero(a) \/ IsFZero(b) THEN AnyNaN(w) ELSE Inf(s, w))
  ELSE IF IsFZero(a) \/ IsFZero(b) THEN FZero(s, w)
  ELSE Round(s, UMulFull(SigM(a), SigM(b)), SigE(a) + SigE(b), FALSE, w)
FDiv(a, b) ==
  LET w == Wd(a)
      s == IF FSign(a) = FSign(b) THEN 0 ELSE 1 IN
  IF IsNaN(a) \/ IsNaN(b) THEN AnyNaN(w)
  ELSE IF IsInf(a) THEN (IF IsInf(b) THEN AnyNaN(w) ELSE Inf(s, w))
  ELSE IF IsInf(b) THEN FZero(s, w)
  ELSE IF IsFZero(a) THEN (IF IsFZero(b) THEN AnyNaN(w) ELSE FZero(s, w))
  ELSE IF IsFZero(b) THEN Inf(s, w)
  ELSE LET n == LimbsFor(BitLen(SigM(b)) + FracBits(w) + 3)
           k == n * LBITS - BitLen(SigM(a))
           d == UDivMod(Shl(ZExt(SigM(a), IF n > w THEN n ELSE w), k), SigM(b))
       IN Round(s, ZExt(d[1], Len(d[1]) + 1), SigE(a) - SigE(b) - k, ~IsZero(d[2]), w)
Fop2Val(n, a, b) == CASE n = "ADD" -> FAdd(a, b) [] n = "SUB" -> FSub(a, b)
                      [] n = "MUL" -> FMul(a, b) [] n = "DIV" -> FDiv(a, b)

FConv(v, w) == IF IsNaN(v) THEN AnyNaN(w) ELSE IF IsInf(v) THEN Inf(FSign(v), w)
               ELSE IF IsFZero(v) THEN FZero(FSign(v), w)
               ELSE Round(FSign(v), SigM(v), SigE(v), FALSE, w)
\* n: MOV, NEG, ABS, CONV_F (from the other width) with destination width w
Fop1Val(n, v, w) == CASE n = "MOV" -> v [] n = "NEG" -> FNeg(v) [] n = "ABS" -> FAbs(v)
                      [] n = "CONV_F" -> FConv(v, w)

\* truncation towards zero; defined only when the result fits in n bytes
FloatMag(v, n) == LET e == SigE(v)
                      x == ZExt(SigM(v), n + Wd(v))
                  IN IF e >= 0 THEN Shl(x, e) ELSE Lshr(x, -e)
FloatFits(v, n) == /\ ~IsNaN(v) /\ ~IsInf(v)
                   /\ SigE(v) + Bits(v) < LBITS * n + Bits(v)
                   /\ LET x == FloatMag(v, n)
                      IN BitLen(x) < LBITS * n \/ (FSign(v) = 1 /\ BitLen(x) = LBITS * n /\ Ctz(x) = LBITS * n - 1)
FloatToInt(v, n) == IF Assert(FloatFits(v, n), <<"SPECERROR conversion out of range", v, n>>)
                    THEN LET x == Trunc(FloatMag(v, n), n) IN IF FSign(v) = 1 THEN Neg(x) ELSE x
                    ELSE v
IntToFloat(v, signed, w) ==
  IF signed /\ Msb(v) = 1 THEN Round(1, Neg(v), 0, FALSE, w) ELSE Round(0, v, 0, FALSE, w)

FEq(a, b) == (IsFZero(a) /\ IsFZero(b)) \/ a = b
FLt(a, b) == IF IsFZero(a) /\ IsFZero(b) THEN FALSE
             ELSE IF FSign(a) # FSign(b) THEN FSign(a) = 1
             ELSE IF FSign(a) = 0 THEN Ult(a, b) ELSE Ult(b, a)
\* value of float flag t for left operand a, right operand b (-1: unspecified)
FFlagVal(t, a, b) ==
  LET bit(p) == IF p THEN 1 ELSE 0
      un == IsNaN(a) \/ IsNaN(b)
  IN IF un THEN CASE t \in {"F_EQUAL", "F_LESS", "F_GREATER"} -> -1
                  [] t \in {"UNORDERED", "UNORDERED_OR_EQUAL", "UNORDERED_OR_LESS", "UNORDERED_OR_GREATER"} -> 1
                  [] t \in {"ORDERED_EQUAL", "ORDERED_LESS", "ORDERED_GREATER"} -> 0
     ELSE CASE t \in {"F_EQUAL", "ORDERED_EQUAL", "UNORDERED_OR_EQUAL"} -> bit(FEq(a, b))
            [] t \in {"F_LESS", "ORDERED_LESS", "UNORDERED_OR_LESS"} -> bit(FLt(a, b))
            [] t \in {"F_GREATER", "ORDERED_GREATER", "UNORDERED_OR_GREATER"} -> bit(FLt(b, a))
            [] t = "UNORDERED" -> 0
=============================================================================
