----------------------------- MODULE WordLaws -----------------------------
(* Every operator of Words against plain integer arithmetic, for ALL values *)
(* of two (three for funnel shifts) words of N limbs.                       *)
EXTENDS Words
CONSTANT N
VARIABLES x, y
vars == <<x, y>>
M == B^N
H == M \div 2
Init == x \in 0..(M-1) /\ y = 0
Next == y < M - 1 /\ y' = y + 1 /\ x' = x
Spec == Init /\ [][Next]_vars

W(v) == OfNat(v % M, N)
S(v) == IF v >= H THEN v - M ELSE v          \* signed reading
Ab(v) == IF v < 0 THEN -v ELSE v
TQuot(p, q) == IF (p < 0) # (q < 0) THEN -(Ab(p) \div Ab(q)) ELSE Ab(p) \div Ab(q)
TRem(p, q) == p - q * TQuot(p, q)
RECURSIVE NBits(_)
NBits(v) == IF v = 0 THEN 0 ELSE 1 + NBits(v \div 2)
RECURSIVE Low(_)
Low(v) == IF v % 2 = 1 THEN 0 ELSE 1 + Low(v \div 2)
a == W(x)
b == W(y)
BW == LBITS * N
DWord(v) == OfNat(v % (M * M), 2 * N)

RoundTrip == ToNat(a) = x /\ Len(a) = N /\ (IsZero(a) <=> x = 0) /\ (Msb(a) = 1 <=> x >= H)
Arith ==
  /\ Add(a, b) = W(x + y)
  /\ \A c \in 0..1 : AddC(a, b, c) = <<W(x + y + c), (x + y + c) \div M>>
  /\ \A c \in 0..1 : SubB(a, b, c) = <<W(x - y - c + 2 * M), IF x - y - c < 0 THEN 1 ELSE 0>>
  /\ \A c \in 0..1 : AddOvf(a, b, c) <=> (S(x) + S(y) + c < -H \/ S(x) + S(y) + c >= H)
  /\ \A c \in 0..1 : SubOvf(a, b, c) <=> (S(x) - S(y) - c < -H \/ S(x) - S(y) - c >= H)
  /\ Neg(a) = W(M - x) /\ Inc(a) = W(x + 1) /\ Sub(a, b) = W(x - y + M)
Order == /\ Ult(a, b) <=> x < y
         /\ Ule(a, b) <=> x <= y
         /\ Slt(a, b) <=> S(x) < S(y)
         /\ Sle(a, b) <=> S(x) <= S(y)
         /\ Abs(a) = W(Ab(S(x)))
Multiply == /\ UMulFull(a, b) = DWord(x * y)
            /\ SMulFull(a, b) = DWord(S(x) * S(y) + M * M)
            /\ Mul(a, b) = W(x * y)
            /\ MulOvf(a, b) <=> (S(x) * S(y) < -H \/ S(x) * S(y) >= H)
Divide == y # 0 =>
            /\ UDivMod(a, b) = <<W(x \div y), W(x % y)>>
            /\ SDivMod(a, b) = <<W(TQuot(S(x), S(y)) + M), W(TRem(S(x), S(y)) + M)>>
Logic == /\ ToNat(AndW(a, b)) + ToNat(OrW(a, b)) = x + y
         /\ ToNat(XorW(a, b)) = ToNat(OrW(a, b)) - ToNat(AndW(a, b))
         /\ ToNat(NotW(a)) = M - 1 - x
         /\ \A k \in 0..(BW-1) : BitAt(AndW(a, b), k) = BitAt(a, k) * BitAt(b, k)
         /\ \A k \in 0..(BW-1) : BitAt(a, k) = (x \div 2^k) % 2
Shifts == \A n \in 0..BW :
   /\ Shl(a, n) = W((x % 2^(BW - n)) * 2^n)
   /\ Lshr(a, n) = W(x \div 2^n)
   /\ Ashr(a, n) = W((IF x >= H THEN x - M + M * 2^n ELSE x) \div 2^n)
   /\ n < BW => Rotl(a, n) = W((x % 2^(BW - n)) * 2^n + x \div 2^(BW - n))
   /\ n < BW => Rotr(Rotl(a, n), n) = a
   \* the documentation's formula for the funnel shifts
   /\ n < BW => ShlInto(a, b, n) = OrW(Shl(a, n), Lshr(Lshr(b, 1), BW - 1 - n))
   /\ n < BW => ShrInto(a, b, n) = OrW(Lshr(a, n), Shl(Shl(b, 1), BW - 1 - n))
Counts == /\ Clz(a) = BW - NBits(x)
          /\ Ctz(a) = (IF x = 0 THEN BW ELSE Low(x))
          /\ BitLen(a) = NBits(x)
Resize == /\ ZExt(a, N + 1) = OfNat(x, N + 1)
          /\ SExt(a, N + 1) = OfNat(S(x) + M * B, N + 1)
          /\ Trunc(UMulFull(a, b), N) = Mul(a, b)
          /\ Reverse(Reverse(a)) = a
=============================================================================
