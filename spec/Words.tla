------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed width machine words as tuples of limbs, least significant first.  *)
(* TLC integers are 32 bit, so 64 bit words cannot be TLC integers.  The   *)
(* limb width is a constant: 8 for real machines (a word is the tuple of   *)
(* its bytes, little end first), 1 or 2 for WordLaws.tla, where every law  *)
(* is checked against TLC integer arithmetic for all operand values.       *)
(* The same operators serve every length, so 8/16/32/64/128 bit values and *)
(* intermediate results of any length are all just tuples.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

CONSTANT LBITS                      \* bits per limb
B == 2^LBITS

Bits(a) == LBITS * Len(a)

Zeros(n) == [i \in 1..n |-> 0]
Zero(n)  == TLCEval(Zeros(n))
Ones(n)  == TLCEval([i \in 1..n |-> B - 1])
One(n)   == TLCEval([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])

\* small non negative integer -> word of n limbs
RECURSIVE OfNatRec(_,_)
OfNatRec(v, n) == IF n = 0 THEN <<>> ELSE <<v % B>> \o OfNatRec(v \div B, n - 1)
OfNat(v, n) == OfNatRec(v, n)

\* value of the lowest limbs as an integer (callers guarantee it fits)
RECURSIVE ToNatRec(_,_)
ToNatRec(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + B * ToNatRec(a, i + 1)
ToNat(a) == ToNatRec(a, 1)

RECURSIVE IsZeroFrom(_,_)
IsZeroFrom(a, i) == IF i > Len(a) THEN TRUE ELSE a[i] = 0 /\ IsZeroFrom(a, i + 1)
IsZero(a) == IsZeroFrom(a, 1)

Msb(a) == a[Len(a)] \div (B \div 2)

\* a word whose low limbs hold a small natural number, saturated at cap
NatSat(a, cap) == IF Len(a) > 2 /\ ~IsZeroFrom(a, 3) THEN cap
                  ELSE LET v == a[1] + (IF Len(a) > 1 THEN B * a[2] ELSE 0) IN IF v > cap THEN cap ELSE v

-----------------------------------------------------------------------------
(* Resizing *)
Trunc(a, n) == SubSeq(a, 1, n)
ZExt(a, n)  == IF n <= Len(a) THEN SubSeq(a, 1, n) ELSE a \o Zero(n - Len(a))
SExt(a, n)  == IF n <= Len(a) THEN SubSeq(a, 1, n)
               ELSE a \o (IF Msb(a) = 1 THEN Ones(n - Len(a)) ELSE Zero(n - Len(a)))
Reverse(a) == TLCEval([i \in 1..Len(a) |-> a[Len(a) + 1 - i]])

-----------------------------------------------------------------------------
(* Bitwise *)
NotW(a)    == TLCEval([i \in 1..Len(a) |-> B - 1 - a[i]])
AndW(a,b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
OrW(a,b)  == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
XorW(a,b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])

-----------------------------------------------------------------------------
(* Addition and subtraction *)
RECURSIVE AddRec(_,_,_,_,_)
AddRec(a, b, i, c, acc) ==
  IF i > Len(a) THEN <<acc, c>>
  ELSE LET s == a[i] + b[i] + c IN AddRec(a, b, i + 1, s \div B, Append(acc, s % B))
AddC(a, b, c) == AddRec(a, b, 1, c, <<>>)          \* <<sum, carry out>>
Add(a, b) == AddRec(a, b, 1, 0, <<>>)[1]
\* a - b - borrow; second component is the borrow out
SubB(a, b, c) == LET r == AddRec(a, NotW(b), 1, 1 - c, <<>>) IN <<r[1], 1 - r[2]>>
Sub(a, b) == SubB(a, b, 0)[1]
Neg(a)    == SubB(Zero(Len(a)), a, 0)[1]
Inc(a)    == AddRec(a, Zero(Len(a)), 1, 1, <<>>)[1]

\* signed overflow of the addition / subtraction (carry or borrow included)
AddOvf(a, b, c) == LET s == AddC(a, b, c)[1] IN Msb(a) = Msb(b) /\ Msb(s) # Msb(a)
SubOvf(a, b, c) == LET s == SubB(a, b, c)[1] IN Msb(a) # Msb(b) /\ Msb(s) # Msb(a)

-----------------------------------------------------------------------------
(* Comparison *)
RECURSIVE UltFrom(_,_,_)
UltFrom(a, b, i) == IF i = 0 THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE UltFrom(a, b, i - 1)
Ult(a, b) == UltFrom(a, b, Len(a))
Ule(a, b) == ~Ult(b, a)
Slt(a, b) == IF Msb(a) # Msb(b) THEN Msb(a) = 1 ELSE Ult(a, b)
Sle(a, b) == ~Slt(b, a)
Abs(a)    == IF Msb(a) = 1 THEN Neg(a) ELSE a

-----------------------------------------------------------------------------
(* Shifts, 0 <= n; bits shifted in from the left come from fill (0 or B-1) *)
Shl(a, n) ==
  LET q == n \div LBITS
      r == n % LBITS
      m == 2^r
      h == 2^(LBITS - r)
      G(i) == IF i < 1 THEN 0 ELSE a[i]
  IN IF n >= Bits(a) THEN Zero(Len(a))
     ELSE TLCEval([i \in 1..Len(a) |-> ((G(i - q) * m) % B) + (G(i - q - 1) \div h)])
ShrFill(a, n, fill) ==
  LET q == n \div LBITS
      r == n % LBITS
      m == 2^r
      h == 2^(LBITS - r)
      G(i) == IF i > Len(a) THEN fill ELSE a[i]
  IN IF n >= Bits(a) THEN TLCEval([i \in 1..Len(a) |-> fill])
     ELSE TLCEval([i \in 1..Len(a) |-> (G(i + q) \div m) + ((G(i + q + 1) * h) % B)])
Lshr(a, n) == ShrFill(a, n, 0)
Ashr(a, n) == ShrFill(a, n, IF Msb(a) = 1 THEN B - 1 ELSE 0)
Rotl(a, n) == LET k == n % Bits(a) IN IF k = 0 THEN a ELSE OrW(Shl(a, k), Lshr(a, Bits(a) - k))
Rotr(a, n) == Rotl(a, Bits(a) - (n % Bits(a)))

\* funnel shifts: bits of b are shifted into a
ShlInto(a, b, n) == IF n = 0 THEN a ELSE OrW(Shl(a, n), Lshr(b, Bits(a) - n))
ShrInto(a, b, n) == IF n = 0 THEN a ELSE OrW(Lshr(a, n), Shl(b, Bits(a) - n))

BitAt(a, k) == (a[(k \div LBITS) + 1] \div 2^(k % LBITS)) % 2
SetBit(a, k) == [a EXCEPT ![(k \div LBITS) + 1] =
                   IF (@ \div 2^(k % LBITS)) % 2 = 1 THEN @ ELSE @ + 2^(k % LBITS)]

-----------------------------------------------------------------------------
(* Counting *)
RECURSIVE LzLimb(_,_), TzLimb(_,_), ClzFrom(_,_), CtzFrom(_,_)
LzLimb(x, k) == IF k = 0 THEN 0 ELSE IF x >= 2^(k - 1) THEN LBITS - k ELSE LzLimb(x, k - 1)
TzLimb(x, k) == IF x % 2 = 1 THEN k ELSE TzLimb(x \div 2, k + 1)
ClzFrom(a, i) == IF i = 0 THEN 0
                 ELSE IF a[i] = 0 THEN LBITS + ClzFrom(a, i - 1) ELSE LzLimb(a[i], LBITS)
CtzFrom(a, i) == IF i > Len(a) THEN 0
                 ELSE IF a[i] = 0 THEN LBITS + CtzFrom(a, i + 1) ELSE TzLimb(a[i], 0)
Clz(a) == ClzFrom(a, Len(a))
Ctz(a) == CtzFrom(a, 1)
BitLen(a) == Bits(a) - Clz(a)

-----------------------------------------------------------------------------
(* Multiplication: full product has Len(a) + Len(b) limbs *)
RECURSIVE ColSum(_,_,_,_,_)
ColSum(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k - i] + ColSum(a, b, k, i + 1, hi)
Col(a, b, k) == \* sum over i + j = k
  ColSum(a, b, k, IF k - Len(b) > 1 THEN k - Len(b) ELSE 1, IF k - 1 < Len(a) THEN k - 1 ELSE Len(a))
RECURSIVE MulRec(_,_,_,_,_)
MulRec(a, b, k, c, acc) ==
  IF k > Len(a) + Len(b) + 1 THEN acc
  ELSE LET s == Col(a, b, k) + c IN MulRec(a, b, k + 1, s \div B, Append(acc, s % B))
UMulFull(a, b) == MulRec(a, b, 2, 0, <<>>)
SMulFull(a, b) == LET p == UMulFull(Abs(a), Abs(b)) IN IF Msb(a) # Msb(b) THEN Neg(p) ELSE p
Mul(a, b)  == Trunc(UMulFull(a, b), Len(a))
\* signed product does not fit in one word
MulOvf(a, b) == LET p == SMulFull(a, b) IN SExt(Trunc(p, Len(a)), Len(p)) # p

-----------------------------------------------------------------------------
(* Division: restoring, one bit at a time *)
RECURSIVE DivRec(_,_,_,_,_)
DivRec(a, b, k, q, r) ==
  IF k < 0 THEN <<q, Trunc(r, Len(b))>>
  ELSE LET r1 == TLCEval([Shl(r, 1) EXCEPT ![1] = @ + BitAt(a, k)])
           bx == ZExt(b, Len(r))
       IN IF Ult(r1, bx) THEN DivRec(a, b, k - 1, q, r1)
          ELSE DivRec(a, b, k - 1, SetBit(q, k), Sub(r1, bx))
UDivMod(a, b) == DivRec(a, b, BitLen(a) - 1, Zero(Len(a)), Zero(Len(b) + 1))
SDivMod(a, b) ==
  LET d == UDivMod(Abs(a), Abs(b))
      q == IF Msb(a) # Msb(b) THEN Neg(d[1]) ELSE d[1]
      r == IF Msb(a) = 1 THEN Neg(d[2]) ELSE d[2]
  IN <<q, r>>
=============================================================================
