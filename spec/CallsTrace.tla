----------------------------- MODULE CallsTrace ------------------------------
(* Validates recorded sequences of calls against Calls.                      *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Rec(i) == TLCGet(7)[i]
NRecs == Len(TLCGet(7))
\* one record holds the constants of a configuration and many sequences: the first record's constants hold for the file
Config == ndJsonDeserialize(IOEnv.TRACE)[1].k
C == INSTANCE Calls WITH K <- Config
VARIABLES ri, k, m
ASSUME TLCSet(1, 0)
R == Rec(ri)
Init == ri \in 1..NRecs /\ k = 1 /\ m = C!Start
Call == R.calls[k]
Good == C!Answer(m, Call, R.rc[k], R.err[k], R.grew[k])
Step == /\ k >= 1 /\ k <= Len(R.calls) /\ Good
        /\ m' = C!After(m, Call, R.rc[k]) /\ k' = k + 1 /\ UNCHANGED ri
Fail == /\ k >= 1 /\ k <= Len(R.calls) /\ ~Good
        /\ PrintT(<<"REJECT", R.id, k, "call", Call, <<R.rc[k], R.err[k], R.grew[k]>>, IF m.bad THEN "after an error" ELSE C!Verdict(m, Call), m>>)
        /\ k' = -1 /\ UNCHANGED <<ri, m>>
\* a sequence without rejected calls gives the same code when nothing is checked
Finish == /\ k = Len(R.calls) + 1 /\ k' = -2 /\ UNCHANGED <<ri, m>>
          /\ IF R.same = 1 THEN TLCSet(1, TLCGet(1) + 1) ELSE PrintT(<<"REJECT", R.id, k, "code", "the code without checks is different">>)
Next == Step \/ Fail \/ Finish
Spec == Init /\ [][Next]_<<ri, k, m>>
Done == PrintT(<<"VERDICTS", TLCGet(1), NRecs - TLCGet(1), NRecs>>)
=============================================================================
