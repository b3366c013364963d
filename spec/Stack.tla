------------------------------- MODULE Stack -------------------------------
(***************************************************************************)
(* The stack utility: a region [min, end) is reserved, [start, end) may be *)
(* used, start moves.  Offsets are relative to min.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS PAGE, MAPPED            \* MAPPED: reserved by a mapping of whole pages
VARIABLES stacks,  \* id -> [size, start, top, data]; data: offset -> value written
          heap     \* memory held, by what holds it: a set of pieces <<kind, id, size>>
svars == <<stacks, heap>>
SInit == stacks = [i \in {} |-> 0] /\ heap = {}
Align(n) == IF MAPPED THEN ((n + PAGE - 1) \div PAGE) * PAGE ELSE n
\* got: the pieces of memory obtained and kept, failed: a request was refused
Allocate(s, startsize, max, ok, got, failed, size, start, top) ==
  IF startsize < 1 \/ startsize > max
  THEN ~ ok /\ got = {} /\ UNCHANGED svars
  ELSE /\ ok = ~ failed
       /\ IF ok THEN /\ size = Align(max) /\ start = size - startsize /\ top = size
                     /\ \E h, m \in got : /\ h # m /\ got = {h, m} /\ h[1] = "malloc"
                                          /\ m[1] = (IF MAPPED THEN "map" ELSE "malloc") /\ m[3] = size
                     /\ s \notin DOMAIN stacks /\ heap \cap got = {}
                     /\ stacks' = [i \in DOMAIN stacks \cup {s} |-> IF i = s THEN [size |-> size, start |-> start, top |-> top, data |-> [o \in {} |-> 0], got |-> got]
                                                                      ELSE stacks[i]]
                     /\ heap' = heap \cup got
          ELSE got = {} /\ UNCHANGED svars
Valid(s, new) == new >= 0 /\ new < stacks[s].size
\* a resize beyond the limits changes nothing
Resize(s, new, ok, size, start, top) ==
  /\ s \in DOMAIN stacks
  /\ ok = Valid(s, new)
  /\ stacks' = [stacks EXCEPT ![s] = IF ok THEN [@ EXCEPT !.start = new, !.data = [o \in {x \in DOMAIN @ : x >= new} |-> @[o]]] ELSE @]
  /\ size = stacks[s].size /\ start = stacks'[s].start /\ top = stacks[s].top
  /\ UNCHANGED heap
Write(s, o, v) == /\ s \in DOMAIN stacks /\ stacks[s].start <= o /\ o < stacks[s].size
                  /\ stacks' = [stacks EXCEPT ![s].data = [x \in DOMAIN @ \cup {o} |-> IF x = o THEN v ELSE @[x]]]
                  /\ UNCHANGED heap
Read(s, o, v) == /\ s \in DOMAIN stacks /\ stacks[s].start <= o /\ o < stacks[s].size
                 /\ (o \in DOMAIN stacks[s].data => v = stacks[s].data[o]) /\ UNCHANGED svars
SetTop(s, o) == s \in DOMAIN stacks /\ stacks' = [stacks EXCEPT ![s].top = o] /\ UNCHANGED heap
Free(s, given) == /\ s \in DOMAIN stacks /\ given = stacks[s].got /\ heap' = heap \ given
                  /\ stacks' = [i \in DOMAIN stacks \ {s} |-> stacks[i]]
----------------------------------------------------------------------------
Bounds == \A s \in DOMAIN stacks : /\ 0 <= stacks[s].start /\ stacks[s].start < stacks[s].size
                                   /\ \A o \in DOMAIN stacks[s].data : stacks[s].start <= o /\ o < stacks[s].size
Held == heap = UNION {stacks[s].got : s \in DOMAIN stacks}
=============================================================================
