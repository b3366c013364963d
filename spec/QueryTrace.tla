----------------------------- MODULE QueryTrace -----------------------------
(* Validates recorded answers and requests against Query.                    *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Rec(i) == TLCGet(7)[i]
NRecs == Len(TLCGet(7))
VARIABLES ri, k, verdict
Q == INSTANCE Query
R == Rec(ri)
Feat == [f \in {R.feat[i][1] : i \in DOMAIN R.feat} |-> LET i == CHOOSE j \in DOMAIN R.feat : R.feat[j][1] = f IN R.feat[i][2]]
Parts == <<"answers", "stable", "facts", "compare", "registers", "vectors", "depends">>
Answers(n) == CASE n = "answers" -> \A i \in DOMAIN R.feat : Q!Answer(R.feat[i][1], R.feat[i][2])
             [] n = "stable" -> \A i \in DOMAIN R.feat : R.feat[i][2] = R.feat[i][3]
             [] n = "facts" -> Q!Facts(Feat, R.facts)
             [] n = "compare" -> \A i \in DOMAIN R.cmp : Q!Compare(R.cond[1], R.cond[2], i - 1, R.cmp[i])
             [] n = "registers" -> Q!Registers(Feat, R.gp, R.fl, R.base, Len(R.gp))
             [] n = "vectors" -> Q!Vectors(Feat, R.vec, R.mov)
             [] n = "depends" -> Q!Depends(Feat, R.barrier, R.fop, R.second, R.aload, R.astore, R.prefetch)
Good(q) == Q!Request(Feat, q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15])
N == IF R.kind = "head" THEN Len(Parts) ELSE Len(R.q)
At(i) == IF R.kind = "head" THEN Answers(Parts[i]) ELSE Good(R.q[i])
What(i) == IF R.kind = "head" THEN Parts[i] ELSE "request"
Bad == {i \in 1..N : ~At(i)}
ASSUME TLCSet(1, 0)
Init == ri \in 1..NRecs /\ k = 0 /\ verdict = "run"
Play == /\ verdict = "run" /\ k' = N /\ UNCHANGED ri
        /\ LET b == Bad IN
           IF b = {} THEN verdict' = "ok" /\ TLCSet(1, TLCGet(1) + 1)
           ELSE LET i == CHOOSE x \in b : \A y \in b : x <= y IN
                /\ verdict' = "no"
                /\ PrintT(<<"REJECT", R.id, i, What(i), IF R.kind = "head" THEN "answers" ELSE R.q[i], b>>)
Spec == Init /\ [][Play]_<<ri, k, verdict>>
Done == PrintT(<<"VERDICTS", TLCGet(1), NRecs - TLCGet(1), NRecs>>)
=============================================================================
