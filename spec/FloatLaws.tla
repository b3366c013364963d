---------------------------- MODULE FloatLaws ----------------------------
(* The float operators checked against exact integer arithmetic for ALL    *)
(* pairs of values of a 7 bit format (1 sign, 3 exponent, 3 fraction bits).*)
EXTENDS LirFloat
CONSTANT N
VARIABLES x, y
Init == x \in {v \in 0..127 : v % N = 1 % N} /\ y = 0   \* N = 1: everything
Next == y < 127 /\ y' = y + 1 /\ x' = x
Spec == Init /\ [][Next]_<<x, y>>
w == 7
U(v) == OfNat(v, 7)
a == U(x)
b == U(y)
Finite == {v \in 0..127 : (v % 64) < 56}
\* value scaled by 2^5: exact integer
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
NS(v) == LET e == (v % 64) \div 8
             f == v % 8
             m == IF e = 0 THEN f ELSE (8 + f) * P2(e - 1)
         IN IF v >= 64 THEN -m ELSE m
Mag(v) == IF v < 0 THEN -v ELSE v
Max == 480
\* r is the correct rounding of num/den (in units of 2^-5), den > 0, when nearest:
Nearest(r, num, den) ==
  LET dist(c) == Mag(NS(c) * den - num)
  IN IF Mag(num) * 1 >= (Max + 16) * den
     THEN r % 64 = 56 /\ (r >= 64 <=> num < 0)
     ELSE /\ r \in Finite
          /\ \A c \in Finite : dist(r) <= dist(c)
          /\ \A c \in Finite : (dist(c) = dist(r) /\ NS(c) # NS(r)) => r % 2 = 0
          /\ num # 0 => (r >= 64 <=> num < 0)
T(v) == ToNat(v)
BothFinite == x \in Finite /\ y \in Finite
AddLaw == BothFinite => /\ Nearest(T(FAdd(a, b)), NS(x) + NS(y), 1)
                        /\ NS(x) + NS(y) = 0 => T(FAdd(a, b)) = (IF x = 64 /\ y = 64 THEN 64 ELSE 0)
SubLaw == BothFinite => Nearest(T(FSub(a, b)), NS(x) - NS(y), 1)
MulLaw == BothFinite => Nearest(T(FMul(a, b)), NS(x) * NS(y), 32) /\ ((T(FMul(a, b)) >= 64) <=> ((x >= 64) # (y >= 64)))
DivLaw == (BothFinite /\ NS(y) # 0) =>
            /\ Nearest(T(FDiv(a, b)), (IF NS(y) < 0 THEN -1 ELSE 1) * NS(x) * 32, Mag(NS(y)))
            /\ ((T(FDiv(a, b)) >= 64) <=> ((x >= 64) # (y >= 64)))
NaNLaw == /\ (x % 64 > 56 \/ y % 64 > 56) => \A op \in {"ADD", "SUB", "MUL", "DIV"} : IsAnyNaN(Fop2Val(op, a, b))
          /\ (x = 56 /\ y = 120) => IsAnyNaN(FAdd(a, b)) /\ IsAnyNaN(FDiv(a, b))
          /\ (x % 64 = 56 /\ y % 64 = 0) => IsAnyNaN(FMul(a, b))
CmpLaw == BothFinite => /\ FEq(a, b) <=> NS(x) = NS(y)
                        /\ FLt(a, b) <=> NS(x) < NS(y)
SignLaw == T(CopySign(a, b)) = (x % 64) + (IF y >= 64 THEN 64 ELSE 0)
IntLaw == /\ Nearest(T(IntToFloat(OfNat(x, 8), FALSE, 7)), 32 * x, 1)
          /\ Nearest(T(IntToFloat(U(x), TRUE, 7)), 32 * (IF x >= 64 THEN x - 128 ELSE x), 1)
TruncLaw == x \in Finite =>
   LET t == Mag(NS(x)) \div 32
       fits(n) == IF x >= 64 THEN t <= P2(n - 1) ELSE t < P2(n - 1)
   IN \A n \in {3, 4, 8} : /\ FloatFits(a, n \div 1) <=> (IF NS(x) >= 0 THEN t < P2(n - 1) ELSE t <= P2(n - 1))
                           /\ fits(n) => ToNat(FloatToInt(a, n)) = (IF x >= 64 THEN (P2(n) - t) % P2(n) ELSE t)
=============================================================================
