----------------------------- MODULE AllocImpl -----------------------------
(***************************************************************************)
(* The boundary-tag algorithm of sljitExecAllocatorCore.c: chunks cut into *)
(* segments, blocks cut from the end of a free segment, neighbours joined  *)
(* when a block is freed, chunks released when the rest has enough space.  *)
(* Checked: every behaviour is one of Alloc (RefStep), and what the        *)
(* algorithm itself relies on (Tagged: no two free segments are            *)
(* neighbours, segments cover the chunk).                                  *)
(* Sizes are in units; a segment has a header of one unit.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Chunk, Cut, Sizes, MaxChunks, MaxBlocks, Threads, Solo
VARIABLES chunks,   \* id -> sequence of segments [n, b]: size, block or 0
          pend, lock, step, nb, kind, word, solo
ivars == <<chunks, pend, lock, step, nb, kind, word, solo>>
HDR == 1
Blk(t) == step[t].b
----------------------------------------------------------------------------
\* what users and the system see
RECURSIVE Off(_, _)
Off(s, i) == IF i = 1 THEN HDR ELSE Off(s, i - 1) + s[i - 1].n
SegOf(b) == CHOOSE c \in DOMAIN chunks : \E i \in DOMAIN chunks[c] : chunks[c][i].b = b
Idx(b) == CHOOSE i \in DOMAIN chunks[SegOf(b)] : chunks[SegOf(b)][i].b = b
Total(c) == Off(chunks[c], Len(chunks[c]) + 1)      \* the segments and the end mark
Known == {b \in 1..MaxBlocks : \E c \in DOMAIN chunks : \E i \in DOMAIN chunks[c] : chunks[c][i].b = b}
\* a block is the user's from the return of malloc to the call of free
Held == {b \in Known : \A t \in Threads : step[t].b # b}
amaps == [c \in DOMAIN chunks |-> [n |-> Total(c), w |-> 0..((Total(c) - 1) \div Chunk), x |-> 0..((Total(c) - 1) \div Chunk)]]
alive == [b \in Held |-> [m |-> SegOf(b), off |-> Off(chunks[SegOf(b)], Idx(b)), xm |-> SegOf(b), n |-> nb[b]]]
A == INSTANCE Alloc WITH maps <- amaps, live <- alive, PAGE <- Chunk, SLACK <- Cut + 4, OVER <- Cut + 2, CHUNKOVER <- 2, MinSize <- 1
----------------------------------------------------------------------------
Idle == [s |-> "idle", b |-> 0, n |-> 0, m |-> 0]
Init == /\ chunks = [i \in {} |-> 0] /\ pend = [t \in Threads |-> A!Idle] /\ lock = 0
        /\ step = [t \in Threads |-> Idle] /\ nb = [b \in 1..MaxBlocks |-> 0]
        /\ kind = "rwx" /\ word = 1 /\ solo = Solo
Alloc(n) == n + HDR                               \* ALIGN_SIZE
Same == UNCHANGED <<kind, word, solo>>
\* a free block number, not known to anybody
FreshB == CHOOSE b \in 1..MaxBlocks : b \notin Known /\ \A t \in Threads : step[t].b # b
CanB == \E b \in 1..MaxBlocks : b \notin Known /\ \A t \in Threads : step[t].b # b

CallMalloc(t) == /\ step[t].s = "idle" /\ CanB
                 /\ \E n \in Sizes : /\ pend' = [pend EXCEPT ![t] = [A!Idle EXCEPT !.op = "malloc", !.n = n]]
                                     /\ step' = [step EXCEPT ![t] = [s |-> "malloc", b |-> FreshB, n |-> n, m |-> 0]]
                 /\ UNCHANGED <<chunks, lock, nb>> /\ Same
Lock(t) == /\ lock = 0 /\ step[t].s \in {"malloc", "free", "trim"} /\ lock' = t
           /\ step' = [step EXCEPT ![t].s = @ \o "!"] /\ UNCHANGED <<chunks, pend, nb>> /\ Same
Put(s, i, n, b) == \* cut a block of n units from the end of the free segment i
  IF s[i].n > n + Cut THEN SubSeq(s, 1, i - 1) \o <<[n |-> s[i].n - n, b |-> 0], [n |-> n, b |-> b]>> \o SubSeq(s, i + 1, Len(s))
  ELSE [s EXCEPT ![i].b = b]
Free(n) == {<<c, i>> \in {<<c, i>> \in (DOMAIN chunks) \X (1..(3 * Chunk)) : i \in DOMAIN chunks[c]} : chunks[c][i].b = 0 /\ chunks[c][i].n >= n}
\* any free segment which is large enough: the order of the list is no matter
Take(t) == /\ step[t].s = "malloc!" /\ lock = t
           /\ \E f \in Free(Alloc(step[t].n)) :
                chunks' = [chunks EXCEPT ![f[1]] = Put(@, f[2], Alloc(step[t].n), step[t].b)]
           /\ nb' = [nb EXCEPT ![step[t].b] = step[t].n]
           /\ step' = [step EXCEPT ![t].s = "return"] /\ lock' = 0 /\ UNCHANGED pend /\ Same
Round(n) == ((n + Chunk - 1) \div Chunk) * Chunk
MapOk(t) == /\ step[t].s = "malloc!" /\ lock = t /\ Free(Alloc(step[t].n)) = {}
            /\ \E c \in (1..MaxChunks) \ DOMAIN chunks : (\A d \in 1..(c - 1) : d \in DOMAIN chunks) /\
                 LET n == Round(Alloc(step[t].n) + 1) - 1
                 IN /\ chunks' = [d \in DOMAIN chunks \cup {c} |-> IF d = c THEN <<[n |-> n, b |-> 0]>> ELSE chunks[d]]
                    /\ step' = [step EXCEPT ![t].s = "place", ![t].m = c]
                    /\ pend' = [pend EXCEPT ![t].fresh = @ \cup {c}]
            /\ UNCHANGED <<lock, nb>> /\ Same
\* all space, or a block in front of a free segment
Place(t) == /\ step[t].s = "place"
            /\ LET c == step[t].m n == Alloc(step[t].n) s == chunks[c][1].n
               IN chunks' = [chunks EXCEPT ![c] = IF s > n + Cut THEN <<[n |-> n, b |-> step[t].b], [n |-> s - n, b |-> 0]>> ELSE <<[n |-> s, b |-> step[t].b]>>]
            /\ nb' = [nb EXCEPT ![step[t].b] = step[t].n]
            /\ step' = [step EXCEPT ![t].s = "return"] /\ lock' = 0 /\ UNCHANGED pend /\ Same
Return(t) == /\ step[t].s = "return" /\ step' = [step EXCEPT ![t] = Idle] /\ pend' = [pend EXCEPT ![t] = A!Idle]
             /\ UNCHANGED <<chunks, lock, nb>> /\ Same
MapFail(t) == /\ step[t].s = "malloc!" /\ lock = t /\ Free(Alloc(step[t].n)) = {}
              /\ step' = [step EXCEPT ![t].s = "null"] /\ lock' = 0 /\ pend' = [pend EXCEPT ![t].failed = TRUE]
              /\ UNCHANGED <<chunks, nb>> /\ Same
Null(t) == /\ step[t].s = "null" /\ step' = [step EXCEPT ![t] = Idle] /\ pend' = [pend EXCEPT ![t] = A!Idle]
           /\ UNCHANGED <<chunks, lock, nb>> /\ Same
CallFree(t) == /\ step[t].s = "idle"
               /\ \E b \in Held : /\ step' = [step EXCEPT ![t] = [s |-> "free", b |-> b, n |-> 0, m |-> SegOf(b)]]
                                  /\ pend' = [pend EXCEPT ![t] = [A!Idle EXCEPT !.op = "free", !.m = SegOf(b)]]
               /\ UNCHANGED <<chunks, lock, nb>> /\ Same
\* the freed segment and its free neighbours are one
Join(s, i) == LET l == IF i > 1 /\ s[i - 1].b = 0 THEN i - 1 ELSE i
                  r == IF i < Len(s) /\ s[i + 1].b = 0 THEN i + 1 ELSE i
                  Sum[k \in l..r] == IF k = l THEN s[k].n ELSE Sum[k - 1] + s[k].n
              IN SubSeq(s, 1, l - 1) \o <<[n |-> Sum[r], b |-> 0]>> \o SubSeq(s, r + 1, Len(s))
DoFree(t) == /\ step[t].s = "free!" /\ lock = t
             /\ LET c == SegOf(step[t].b) IN chunks' = [chunks EXCEPT ![c] = Join(@, Idx(step[t].b))]
             /\ step' = [step EXCEPT ![t].s = "freed", ![t].b = 0] /\ nb' = [nb EXCEPT ![step[t].b] = 0]
             /\ UNCHANGED <<lock, pend>> /\ Same
Space(c) == LET R[i \in 0..Len(chunks[c])] == IF i = 0 THEN 0 ELSE R[i - 1] + chunks[c][i].n IN R[Len(chunks[c])]
UsedIn(c) == LET R[i \in 0..Len(chunks[c])] == IF i = 0 THEN 0 ELSE R[i - 1] + (IF chunks[c][i].b = 0 THEN 0 ELSE chunks[c][i].n) IN R[Len(chunks[c])]
RECURSIVE SumOver(_, _)
SumOver(S, used) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN (IF used THEN UsedIn(c) ELSE Space(c)) + SumOver(S \ {c}, used)
Whole(c) == Len(chunks[c]) = 1 /\ chunks[c][1].b = 0
Drop(c) == chunks' = [d \in DOMAIN chunks \ {c} |-> chunks[d]]
Enough(c) == 2 * (SumOver(DOMAIN chunks, FALSE) - Space(c)) > 3 * SumOver(DOMAIN chunks, TRUE)
Release(t) == /\ step[t].s = "freed"
              /\ IF Whole(step[t].m) /\ Enough(step[t].m) THEN Drop(step[t].m) ELSE UNCHANGED chunks
              /\ step' = [step EXCEPT ![t].s = "back"] /\ lock' = 0 /\ UNCHANGED <<pend, nb>> /\ Same
Back(t) == /\ step[t].s = "back" /\ step' = [step EXCEPT ![t] = Idle] /\ pend' = [pend EXCEPT ![t] = A!Idle]
           /\ UNCHANGED <<chunks, lock, nb>> /\ Same
CallTrim(t) == /\ step[t].s = "idle" /\ step' = [step EXCEPT ![t] = [Idle EXCEPT !.s = "trim"]]
               /\ pend' = [pend EXCEPT ![t] = [A!Idle EXCEPT !.op = "trim"]] /\ UNCHANGED <<chunks, lock, nb>> /\ Same
Trim(t) == /\ step[t].s = "trim!" /\ lock = t
           /\ IF \E c \in DOMAIN chunks : Whole(c) THEN /\ Drop(CHOOSE c \in DOMAIN chunks : Whole(c))
                                                         /\ UNCHANGED <<step, lock>>
              ELSE /\ UNCHANGED chunks /\ step' = [step EXCEPT ![t].s = "back"] /\ lock' = 0
           /\ UNCHANGED <<pend, nb>> /\ Same
Next == \E t \in Threads : \/ CallMalloc(t) \/ Lock(t) \/ Take(t) \/ MapOk(t) \/ Place(t) \/ Return(t) \/ MapFail(t) \/ Null(t)
                           \/ CallFree(t) \/ DoFree(t) \/ Release(t) \/ Back(t) \/ CallTrim(t) \/ Trim(t)
Spec == Init /\ [][Next]_ivars
----------------------------------------------------------------------------
ANext == \E t \in Threads :
           \/ \E n \in Sizes : A!CallMalloc(t, n)
           \/ \E i \in 1..MaxChunks : \E n \in {Chunk, 2 * Chunk, 3 * Chunk} : A!MapOk(t, i, n, TRUE, TRUE)
           \/ A!MapFail(t)
           \/ \E i \in DOMAIN amaps : A!Unmap(t, i, 0, amaps[i].n)
           \/ \E b \in 1..MaxBlocks : b \in DOMAIN alive' /\ A!RetMalloc(t, b, alive'[b].m, alive'[b].off, alive'[b].m, alive'[b].off)
           \/ A!RetNull(t) \/ A!RetFree(t) \/ A!CallTrim(t) \/ A!RetTrim(t)
           \/ \E b \in DOMAIN alive : A!CallFree(t, b)
RefStep == [][ANext]_(A!vars)
Tagged == \A c \in DOMAIN chunks : /\ Space(c) = Total(c) - HDR
                                   /\ \A i \in 1..(Len(chunks[c]) - 1) : chunks[c][i].b # 0 \/ chunks[c][i + 1].b # 0
                                   /\ \A i \in DOMAIN chunks[c] : chunks[c][i].n > 0
Safe == A!Inside /\ A!Disjoint /\ A!NoWX
=============================================================================
