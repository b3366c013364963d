----------------------------- MODULE AtomicTrace -----------------------------
(* Validates the events recorded by threads sharing cells against Atomic.    *)
(* All stored values of a test are different, so the order of the stores of  *)
(* a cell follows from the loaded values; it has to agree with the order of  *)
(* the events of every thread and to end with the final contents.            *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Rec(i) == TLCGet(7)[i]
NRecs == Len(TLCGet(7))
VARIABLES ri, pos, cell, last
A == INSTANCE Atomic
R == Rec(ri)
T == 1..Len(R.th)
Init == ri \in 1..NRecs /\ pos = [t \in T |-> 1] /\ A!AInit(R.init)
Pending == {t \in T : pos[t] <= Len(R.th[t])}
E(t) == R.th[t][pos[t]]
\* a store which failed had loaded something the cell contained
Seen(c, v) == R.init[c] = v \/ \E t \in T : \E k \in 1..(pos[t] - 1) : LET e == R.th[t][k] IN e[1] = c /\ e[4] = 1 /\ e[3] = v
CanFail == {t \in Pending : E(t)[4] = 0 /\ Seen(E(t)[1], E(t)[2])}
CanStore == {t \in Pending : E(t)[4] = 1 /\ cell[E(t)[1]] = E(t)[2]}
\* the choice does not matter: a step never disables another one
Play == LET F == CanFail
            S == IF F # {} THEN F ELSE CanStore
        IN /\ S # {}
           /\ LET t == CHOOSE x \in S : TRUE
                  e == E(t)
              IN /\ IF e[4] = 1 THEN A!Stored(t, e[1], e[2], e[3]) ELSE A!NotStored(t, e[1], e[2], e[3])
                 /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ UNCHANGED ri
Spec == Init /\ [][Play]_<<ri, pos, cell, last>>
Good == R.plain = 0 /\ R.edge = 1 /\ R.sup >= 0 /\ cell = R.final
ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..NRecs |-> <<>>])
Progress == IF Pending = {} /\ Good THEN TLCSet(1, TLCGet(1) \cup {ri}) ELSE TLCSet(2, [TLCGet(2) EXCEPT ![ri] = <<pos, cell>>])
Done == LET ok == TLCGet(1) IN
  /\ \A i \in 1..NRecs : i \in ok \/ PrintT(<<"REJECT", Rec(i).id, 0, "history", TLCGet(2)[i], Rec(i).plain, Rec(i).edge, Rec(i).sup>>)
  /\ PrintT(<<"VERDICTS", Cardinality(ok), NRecs - Cardinality(ok), NRecs>>)
=============================================================================
