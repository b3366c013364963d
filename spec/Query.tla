-------------------------------- MODULE Query --------------------------------
(* What the library says about itself and what it does when it is asked.     *)
(* A processor is described by the facts known about it (F), the answers of  *)
(* the library by feat (feature -> answer), and a request by what happened   *)
(* when it was tested and when it was made.                                  *)
EXTENDS Integers, Sequences, FiniteSets
\* results of emission functions
OK == 0
UNSUPPORTED == 4
BAD == 5
\* features
FPU == 0
VIRTUAL == 1
ZEROREG == 2
CLZ == 3
CTZ == 4
REV == 5
ROT == 6
CMOV == 7
PREFETCH == 8
COPY32 == 9
COPY64 == 10
PAIR == 11
SIMD == 12
SIMDPAIR == 13
ATOMIC == 14
BARRIER == 15
AVX == 100
AVX2 == 101
LASX == 201
Known == 0..15 \cup {AVX, AVX2, LASX}

(* ---- answers of features ------------------------------------------------ *)
Answer(f, v) == v \in {0, 1, 2} /\ (f \notin Known => v = 0)
\* facts: pairs of a feature and the only answer which is true
Facts(feat, F) == \A i \in DOMAIN F : feat[F[i][1]] = F[i][2]

(* ---- comparison queries ------------------------------------------------- *)
Compare(first, last, type, v) == IF type \in first..last THEN v \in 0..2 ELSE v = 0

(* ---- machine registers -------------------------------------------------- *)
Distinct(s) == \A i, j \in DOMAIN s : i # j /\ s[i] >= 0 => s[i] # s[j]
\* virtual registers are those which cannot hold an address; they have no machine register
Registers(feat, gp, fl, base, nsp) ==
  /\ Distinct(gp) /\ Distinct(fl)
  /\ \A i \in DOMAIN gp : gp[i] >= -1
  /\ \A i \in DOMAIN fl : fl[i] >= 0
  /\ gp[nsp] >= 0
  /\ \A i \in DOMAIN base : (gp[i] = -1) <=> (base[i] # OK)
  /\ (feat[VIRTUAL] # 0) <=> (\E i \in DOMAIN base : gp[i] = -1)
Vectors(feat, vec, mov) ==
  /\ \A s \in DOMAIN vec : \A i \in DOMAIN vec[s] : vec[s][i] >= -1
  \* registers of a size which can be moved have a machine register
  /\ \A s \in DOMAIN mov : (mov[s][1] = OK \/ mov[s][2] = OK) => \A i \in DOMAIN vec[s] : vec[s][i] >= 0
  /\ \A s \in DOMAIN mov : mov[s][1] \in {OK, UNSUPPORTED} /\ mov[s][2] = mov[s][1]
  \* two names of one register exactly when the registers are pairs
  /\ IF feat[SIMDPAIR] # 0
     THEN \A i \in DOMAIN vec[2] : \A j \in DOMAIN vec[2] : (vec[2][i] = vec[2][j]) <=> ((i - 1) \div 2 = (j - 1) \div 2)
     ELSE \A s \in DOMAIN vec : Distinct(vec[s])
  /\ (feat[SIMD] # 0) <=> (\E s \in DOMAIN mov : mov[s][1] = OK)
  /\ ((feat[AVX2] # 0 \/ feat[LASX] # 0) <=> mov[3][1] = OK) /\ (mov[4][1] # OK)

(* ---- what depends on a feature ------------------------------------------ *)
Depends(feat, barrier, fop, second, aload, astore, prefetch) ==
  /\ barrier \in {OK, UNSUPPORTED, BAD} /\ ((feat[BARRIER] # 0) <=> (barrier = OK))
  /\ (feat[FPU] # 0) <=> (fop = OK)
  /\ (feat[PAIR] # 0) => (second[1] = OK /\ second[2] = 1)
  /\ (feat[ATOMIC] # 0) <=> (aload = OK /\ astore = OK)
  /\ (aload = OK) <=> (astore = OK)
  /\ prefetch[1] = OK /\ (feat[PREFETCH] # 0 => prefetch[2] = 1)

(* ---- requests ----------------------------------------------------------- *)
\* kind of operation, register size, element size, options, form of the operand (3: absolute address);
\* test: result of the test before the request, te: the test changed the compiler, again: result of the test after it;
\* r: result, grew: code was added, err: the error of the compiler afterwards, then: results of the next functions,
\* flags: results of the functions which use flags set before a test, same: the code is what it is without tests, other: the
\* test of the other half of an atomic pair
Request(feat, kind, a, b, c, mem, test, te, again, r, grew, err, then, flags, same, other) ==
  /\ test \in {OK, UNSUPPORTED}
  /\ te = 0 /\ again = test /\ flags = 0
  /\ r = test
  /\ err = 0 /\ then = 0 /\ same = 1
  /\ (r = UNSUPPORTED) => grew = 0
  /\ (r = OK) => grew = 1
  /\ (kind \in {"u", "f"} /\ mem = 3) => r = UNSUPPORTED
  /\ (kind \in {"A", "S"}) => test = other
  /\ (kind \in {"m", "r", "l", "d", "e", "s", "o"} /\ a = 6) => r = UNSUPPORTED
  /\ (kind \in {"m", "r", "l", "d", "e", "s", "o"} /\ a = 5 /\ r = OK) => (feat[AVX2] # 0 \/ feat[LASX] # 0)
=============================================================================
