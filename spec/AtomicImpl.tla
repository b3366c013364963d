----------------------------- MODULE AtomicImpl -----------------------------
(***************************************************************************)
(* How the backends implement the pair: with a compare and swap of the     *)
(* loaded value ("cas", x86, s390x), or with load linked / store           *)
(* conditional ("ls"), where any store of another thread to the same       *)
(* granule breaks the reservation, which may also be lost for no reason.   *)
(* Both refine Atomic.  A memory system which checks the value only ("val",*)
(* as emulators implement store conditional) does as well.                 *)
(***************************************************************************)
EXTENDS Naturals
CONSTANTS Threads, Cells, Vals, Mode
VARIABLES cell, last, pcs, at, got, resv
vars == <<cell, last, pcs, at, got, resv>>
\* all cells belong to one granule
Init == /\ cell = [c \in Cells |-> 0] /\ last = <<>>
        /\ pcs = [t \in Threads |-> "idle"]
        /\ at = [t \in Threads |-> CHOOSE c \in Cells : TRUE]
        /\ got = [t \in Threads |-> 0]
        /\ resv = [t \in Threads |-> FALSE]
Load(t, c) == /\ pcs[t] = "idle"
              /\ pcs' = [pcs EXCEPT ![t] = "loaded"]
              /\ at' = [at EXCEPT ![t] = c]
              /\ got' = [got EXCEPT ![t] = cell[c]]
              /\ resv' = [resv EXCEPT ![t] = TRUE]
              /\ UNCHANGED <<cell, last>>
Ok(t) == CASE Mode = "cas" -> cell[at[t]] = got[t]
           [] Mode = "val" -> resv[t] /\ cell[at[t]] = got[t]
           [] Mode = "ls" -> resv[t]
Break(t) == IF Mode = "ls" THEN [u \in Threads |-> FALSE] ELSE [resv EXCEPT ![t] = FALSE]
Store(t, n) == /\ pcs[t] = "loaded"
               /\ pcs' = [pcs EXCEPT ![t] = "idle"]
               /\ IF Ok(t)
                  THEN /\ cell' = [cell EXCEPT ![at[t]] = n]
                       /\ resv' = Break(t)
                       /\ last' = <<t, at[t], got[t], n, TRUE>>
                  ELSE /\ UNCHANGED cell
                       /\ resv' = [resv EXCEPT ![t] = FALSE]
                       /\ last' = <<t, at[t], got[t], n, FALSE>>
               /\ UNCHANGED <<at, got>>
Lose(t) == Mode # "cas" /\ resv[t] /\ resv' = [resv EXCEPT ![t] = FALSE] /\ UNCHANGED <<cell, last, pcs, at, got>>
Other(t, c, n) == /\ pcs[t] = "idle" /\ cell' = [cell EXCEPT ![c] = n] /\ last' = <<t, c>>
                  /\ resv' = Break(t) /\ UNCHANGED <<pcs, at, got>>
Next == \E t \in Threads : \/ \E c \in Cells : Load(t, c) \/ \E n \in Vals : Other(t, c, n)
                           \/ \E n \in Vals : Store(t, n)
                           \/ Lose(t)
Spec == Init /\ [][Next]_vars
A == INSTANCE Atomic
Refines == [][A!ANext(Threads, Cells, Vals)]_<<cell, last>>
=============================================================================
