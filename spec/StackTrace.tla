----------------------------- MODULE StackTrace -----------------------------
(* Validates recorded histories of the stack utility.                        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Rec(i) == TLCGet(7)[i]
NRecs == Len(TLCGet(7))
VARIABLES ri, k, verdict, stacks, heap
M == INSTANCE Stack WITH PAGE <- 4096, MAPPED <- TRUE
H == INSTANCE Stack WITH PAGE <- 4096, MAPPED <- FALSE
R == Rec(ri)
E == R.ev[k]
TInit == ri \in 1..NRecs /\ k = 1 /\ verdict = "run" /\ M!SInit
Set(s) == {s[i] : i \in DOMAIN s}
Step(e) ==
  LET s == e[2] IN
  CASE e[1] = "new" -> IF R.mapped = 1 THEN M!Allocate(s, e[3], e[4], e[5] = 1, Set(e[10]), e[9] = 1, e[6], e[7], e[8])
                                        ELSE H!Allocate(s, e[3], e[4], e[5] = 1, Set(e[10]), e[9] = 1, e[6], e[7], e[8])
    [] e[1] = "resize" -> M!Resize(s, e[3], e[4] = 1, e[5], e[6], e[7]) /\ e[4] # 2
    [] e[1] = "write" -> M!Write(s, e[3], e[4])
    [] e[1] = "read" -> M!Read(s, e[3], e[4])
    [] e[1] = "top" -> M!SetTop(s, e[3])
    [] e[1] = "free" -> M!Free(s, Set(e[3]))
    [] OTHER -> FALSE
Play == /\ verdict = "run" /\ k <= Len(R.ev)
        /\ Step(E)
        /\ k' = k + 1 /\ verdict' = IF k = Len(R.ev) /\ heap' = {} THEN "ok" ELSE "run"
        /\ UNCHANGED ri
Spec == TInit /\ [][Play]_<<ri, k, verdict, stacks, heap>>
Sound == M!Bounds /\ M!Held
ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..NRecs |-> 1])
Progress == /\ (verdict = "ok" => TLCSet(1, TLCGet(1) \cup {ri}))
            /\ k > TLCGet(2)[ri] => TLCSet(2, [TLCGet(2) EXCEPT ![ri] = k])
Done == LET ok == TLCGet(1) IN
  /\ \A i \in 1..NRecs : i \in ok \/ PrintT(<<"REJECT", Rec(i).id, TLCGet(2)[i], "event", IF TLCGet(2)[i] <= Len(Rec(i).ev) THEN Rec(i).ev[TLCGet(2)[i]] ELSE "end">>)
  /\ PrintT(<<"VERDICTS", Cardinality(ok), NRecs - Cardinality(ok), NRecs>>)
=============================================================================
