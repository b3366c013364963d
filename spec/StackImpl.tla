----------------------------- MODULE StackImpl -----------------------------
(***************************************************************************)
(* How sljitUtils.c does it: pages given back when the start moves up by   *)
(* whole pages lose their contents at any time.  Checked: every behaviour  *)
(* is one of Stack.                                                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Page, Max, Vals
VARIABLES start, size, mem, released, ghost, alive
ivars == <<start, size, mem, released, ghost, alive>>
Pieces == {<<"malloc", 1, 1>>, <<"map", 2, size>>}
astacks == IF alive THEN [i \in {1} |-> [size |-> size, start |-> start, top |-> size, data |-> ghost, got |-> Pieces]] ELSE [i \in {} |-> 0]
aheap == IF alive THEN Pieces ELSE {}
S == INSTANCE Stack WITH PAGE <- Page, MAPPED <- TRUE, stacks <- astacks, heap <- aheap
NoData == [o \in {} |-> 0]
Init == start = 0 /\ size = 0 /\ mem = [o \in 0..(Max + Page) |-> 0] /\ released = {} /\ ghost = NoData /\ alive = FALSE
Round(n) == ((n + Page - 1) \div Page) * Page
Down(o) == (o \div Page) * Page
Allocate == /\ ~ alive /\ \E m \in 1..Max, s \in 1..Max : s <= m /\ size' = Round(m) /\ start' = Round(m) - s
            /\ alive' = TRUE /\ released' = {} /\ ghost' = NoData /\ UNCHANGED mem
Resize == /\ alive /\ \E new \in -1..(size + 1) :
               IF new < 0 \/ new >= size THEN UNCHANGED ivars
               ELSE /\ start' = new
                    /\ released' = IF new > start /\ Down(new) > Down(start) THEN released \cup (Down(start)..(Down(new) - 1)) ELSE released
                    /\ ghost' = [o \in {x \in DOMAIN ghost : x >= new} |-> ghost[o]]
                    /\ UNCHANGED <<size, mem, alive>>
\* the system takes the contents of a released page
Lose == /\ alive /\ \E o \in released : o % Page = 0 /\ mem' = [x \in DOMAIN mem |-> IF Down(x) = o THEN 0 ELSE mem[x]]
        /\ UNCHANGED <<start, size, released, ghost, alive>>
\* a page which is written is in use again
Write == /\ alive /\ \E o \in start..(size - 1), v \in Vals :
              /\ mem' = [mem EXCEPT ![o] = v] /\ released' = {x \in released : Down(x) # Down(o)}
              /\ ghost' = [x \in DOMAIN ghost \cup {o} |-> IF x = o THEN v ELSE ghost[x]]
         /\ UNCHANGED <<start, size, alive>>
Free == alive /\ alive' = FALSE /\ released' = {} /\ ghost' = NoData /\ UNCHANGED <<start, size, mem>>
Next == Allocate \/ Resize \/ Lose \/ Write \/ Free
Spec == Init /\ [][Next]_ivars
ANext == \/ \E m, s \in 1..Max : S!Allocate(1, s, m, TRUE, Pieces', FALSE, size', start', size')
         \/ \E new \in -1..(Max + Page) : S!Resize(1, new, S!Valid(1, new), size, start', size)
         \/ \E o \in 0..(Max + Page), v \in Vals : S!Write(1, o, v)
         \/ S!Free(1, Pieces)
RefStep == [][ANext]_(S!svars)
\* what was written and not given up is read
Contents == alive => \A o \in DOMAIN ghost : mem[o] = ghost[o]
Safe == S!Bounds /\ S!Held
=============================================================================
