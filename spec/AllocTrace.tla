----------------------------- MODULE AllocTrace -----------------------------
(* Validates recorded histories of the executable memory allocators.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Rec(i) == TLCGet(7)[i]
NRecs == Len(TLCGet(7))
VARIABLES ri, k, verdict, maps, live, pend, kind, word, solo
A == INSTANCE Alloc WITH PAGE <- 4096, SLACK <- 256, OVER <- 256, CHUNKOVER <- 64, Threads <- 0..8, MinSize <- 64
R == Rec(ri)
E == R.ev[k]
TInit == /\ ri \in 1..NRecs /\ k = 1 /\ verdict = "run" /\ solo = (Rec(ri).threads = 1) /\ kind = Rec(ri).kind /\ word = Rec(ri).word
         /\ A!Init
\* in the histories of several threads only the shared rules apply
Step(e) ==
  LET t == e[2] IN
  CASE e[1] = "m" -> A!CallMalloc(t, e[4])
    [] e[1] = "map" -> A!MapOk(t, e[3], e[4], e[5] = 1, e[6] = 1)
    [] e[1] = "fail" -> A!MapFail(t)
    [] e[1] = "unmap" -> A!Unmap(t, e[3], e[4], e[5])
    [] e[1] = "prot" -> A!Protect(t, e[3], e[4], e[5], e[6] = 1, e[7] = 1)
    [] e[1] = "M" -> IF e[4] = 0 THEN A!RetNull(t) \/ A!RetTooLarge(t)
                     ELSE A!RetMalloc(t, e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "g" -> A!CallGenerate(t)
    [] e[1] = "G" -> IF e[4] = 0 THEN A!RetNull(t)
                     ELSE A!RetGenerate(t, e[3], e[4], e[5], e[6], e[7], e[8])
    [] e[1] = "run" -> e[4] = 1 /\ A!Run(e[3])
    [] e[1] = "f" -> e[4] = 1 /\ A!CallFree(t, e[3])      \* with its contents as they were written
    [] e[1] = "F" -> A!RetFree(t)
    [] e[1] = "t" -> A!CallTrim(t)
    [] e[1] = "T" -> A!RetTrim(t)
    [] e[1] = "keep" -> e[3] = 1 /\ UNCHANGED <<maps, live, pend, kind, word, solo>>    \* the contents of all blocks
    \* a single thread is left
    [] e[1] = "joined" -> solo' = TRUE /\ UNCHANGED <<maps, live, pend, kind, word>>
    \* nothing is left behind
    [] e[1] = "end" -> /\ e[3] = 0 /\ DOMAIN live = {} /\ DOMAIN maps = {} /\ UNCHANGED <<maps, live, pend, kind, word, solo>>
    [] OTHER -> FALSE
Play == /\ verdict = "run" /\ k <= Len(R.ev)
        /\ Step(E)
        /\ k' = k + 1 /\ verdict' = IF k = Len(R.ev) THEN "ok" ELSE "run"
        /\ UNCHANGED ri
Spec == TInit /\ [][Play]_<<ri, k, verdict, maps, live, pend, kind, word, solo>>
Sound == A!Inside /\ A!Disjoint /\ A!NoWX
ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..NRecs |-> 1])
Progress == /\ (verdict = "ok" => TLCSet(1, TLCGet(1) \cup {ri}))
            /\ k > TLCGet(2)[ri] => TLCSet(2, [TLCGet(2) EXCEPT ![ri] = k])
Done == LET ok == TLCGet(1) IN
  /\ \A i \in 1..NRecs : i \in ok \/ PrintT(<<"REJECT", Rec(i).id, TLCGet(2)[i], "event", IF TLCGet(2)[i] <= Len(Rec(i).ev) THEN Rec(i).ev[TLCGet(2)[i]] ELSE "end">>)
  /\ PrintT(<<"VERDICTS", Cardinality(ok), NRecs - Cardinality(ok), NRecs>>)
=============================================================================
