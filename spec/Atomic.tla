------------------------------- MODULE Atomic -------------------------------
(***************************************************************************)
(* What an atomic load / store pair means when several threads use it:     *)
(* cells hold values; a pair of a thread either replaces the value it has  *)
(* loaded, in one indivisible step, or changes nothing.  Neighbouring      *)
(* cells (bytes of the same word) are independent.                         *)
(***************************************************************************)
VARIABLES cell,     \* cell -> value
          last      \* the last event <<thread, cell, loaded value, new value, reported success>>
AInit(init) == cell = init /\ last = <<>>
\* success: the location holds the loaded value at the moment of the replacement
Stored(t, c, old, new) == /\ cell[c] = old
                          /\ cell' = [cell EXCEPT ![c] = new]
                          /\ last' = <<t, c, old, new, TRUE>>
\* failure: the memory is unchanged
NotStored(t, c, old, new) == cell' = cell /\ last' = <<t, c, old, new, FALSE>>
\* a plain store of another thread
Plain(t, c, new) == cell' = [cell EXCEPT ![c] = new] /\ last' = <<t, c>>
ANext(T, C, Vals) == \E t \in T, c \in C : \/ \E o, n \in Vals : Stored(t, c, o, n) \/ NotStored(t, c, o, n)
                                           \/ \E n \in Vals : Plain(t, c, n)
=============================================================================
