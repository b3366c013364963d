------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* Executable memory, as its users and the system see it.                  *)
(*                                                                         *)
(* The allocator obtains mappings from the system and hands out blocks     *)
(* inside them.  A block has a view for writing and a view for execution;  *)
(* these are at the same offset of two mappings when the allocator maps    *)
(* memory twice, and the same place otherwise.                             *)
(*                                                                         *)
(* kind   "rwx"   mappings are writable and executable                     *)
(*        "prot"  two mappings of each piece of memory, one for each view  *)
(*        "wx"    one mapping for each block, never both at the same time  *)
(* word   alignment of blocks, PAGE unit of access rights                  *)
(* SLACK  space which the allocator may need above the requested size;     *)
(*        it may only ask the system for memory when no gap of a mapping   *)
(*        has the requested size and this                                  *)
(* OVER   space a block can need above its size, CHUNKOVER: a mapping      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS PAGE, SLACK, OVER, CHUNKOVER, Threads, MinSize
VARIABLES maps,    \* the mappings: id -> [n, w, x]: size, writable and
                   \* executable pages
          live,    \* the blocks: id -> [m, off, xm, n]
          pend,    \* what each thread is doing: [op, n, failed, fresh, m]
          kind, word,
          solo     \* FALSE once several threads are at work
vars == <<maps, live, pend, kind, word, solo>>
Idle == [op |-> "idle", n |-> 0, failed |-> FALSE, fresh |-> {}, m |-> 0]
Init == /\ maps = [i \in {} |-> 0] /\ live = [i \in {} |-> 0]
        /\ pend = [t \in Threads |-> Idle]
Max(a, b) == IF a > b THEN a ELSE b
Size(n) == Max(n, MinSize)

----------------------------------------------------------------------------
\* the gaps between the blocks of a mapping
In(m) == {b \in DOMAIN live : live[b].m = m}
Starts(m) == {0} \cup {live[b].off + live[b].n : b \in In(m)}
GapAt(m, s) == LET after == {live[b].off : b \in {c \in In(m) : live[c].off >= s}}
                   e == IF after = {} THEN maps[m].n ELSE CHOOSE x \in after : \A y \in after : x <= y
               IN IF \E b \in In(m) : live[b].off < s /\ s < live[b].off + live[b].n THEN 0 ELSE e - s
Pages(off, n) == (off \div PAGE) .. ((off + n - 1) \div PAGE)
CanWrite(m, off, n) == Pages(off, n) \subseteq maps[m].w
CanRun(m, off, n) == Pages(off, n) \subseteq maps[m].x
HasGap(n) == \E m \in DOMAIN maps : maps[m].w # {} /\ \E s \in Starts(m) : GapAt(m, s) >= n
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
Used(m) == \E b \in DOMAIN live : live[b].m = m \/ live[b].xm = m

----------------------------------------------------------------------------
CallMalloc(t, n) == /\ pend[t].op = "idle"
                    /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = "malloc", !.n = n]]
                    /\ UNCHANGED <<maps, live, solo, kind, word>>
\* memory is requested from the system
MapRule(t) == \/ pend[t].op \in {"generate"}
              \/ /\ pend[t].op = "malloc"
                 /\ solo /\ kind # "wx" /\ pend[t].fresh = {} => ~ HasGap(Size(pend[t].n) + SLACK)
MapOk(t, i, n, w, x) == /\ MapRule(t) /\ i \notin DOMAIN maps
                        /\ kind # "rwx" => ~ (w /\ x)
                        /\ maps' = [j \in DOMAIN maps \cup {i} |-> IF j = i THEN [n |-> n, w |-> IF w THEN Pages(0, n) ELSE {}, x |-> IF x THEN Pages(0, n) ELSE {}]
                                                                               ELSE maps[j]]
                        /\ pend' = [pend EXCEPT ![t].fresh = @ \cup {i}]
                        /\ UNCHANGED <<live, solo, kind, word>>
MapFail(t) == /\ MapRule(t)
              /\ pend' = [pend EXCEPT ![t].failed = TRUE]
              /\ UNCHANGED <<maps, live, solo, kind, word>>
\* only a whole mapping without blocks is returned to the system
Unmap(t, i, off, n) == /\ pend[t].op # "idle"
                       /\ i \in DOMAIN maps /\ off = 0 /\ n = maps[i].n /\ ~ Used(i)
                       /\ maps' = [j \in DOMAIN maps \ {i} |-> maps[j]]
                       /\ pend' = [pend EXCEPT ![t].fresh = @ \ {i}]
                       /\ UNCHANGED <<live, solo, kind, word>>
\* the access rights of a mapping change (only the "wx" allocator does this)
Protect(t, i, off, n, w, x) == /\ kind = "wx" /\ i \in DOMAIN maps /\ off % PAGE = 0
                               /\ Pages(off, n) \subseteq Pages(0, maps[i].n)
                               /\ ~ (w /\ x)
                               /\ maps' = [maps EXCEPT ![i] = [n |-> @.n, w |-> IF w THEN @.w \cup Pages(off, n) ELSE @.w \ Pages(off, n),
                                                                          x |-> IF x THEN @.x \cup Pages(off, n) ELSE @.x \ Pages(off, n)]]
                               /\ UNCHANGED <<live, pend, solo, kind, word>>
Overlap(a, an, b, bn) == a < b + bn /\ b < a + an
Fits(m, off, xm, n) ==
  /\ m \in DOMAIN maps /\ off >= 0 /\ off % word = 0 /\ n <= maps[m].n - off
  /\ xm \in DOMAIN maps /\ n <= maps[xm].n - off
  /\ (kind = "prot") = (m # xm)
  /\ \A b \in DOMAIN live : (live[b].m = m \/ live[b].xm = xm) => ~ Overlap(off, n, live[b].off, live[b].n)
  /\ \A b \in DOMAIN live : (live[b].m = m) = (live[b].xm = xm)
  /\ \A b \in DOMAIN live : kind = "wx" => live[b].m # m
Add(b, m, off, xm, n) == /\ b \notin DOMAIN live
                         /\ live' = [c \in DOMAIN live \cup {b} |-> IF c = b THEN [m |-> m, off |-> off, xm |-> xm, n |-> n] ELSE live[c]]
\* a block is returned: what was mapped for it holds it
RetMalloc(t, b, m, off, xm, xoff) ==
  /\ pend[t].op = "malloc" /\ off = xoff /\ Fits(m, off, xm, pend[t].n) /\ Add(b, m, off, xm, pend[t].n)
  /\ CanWrite(m, off, pend[t].n) /\ (kind # "wx" => CanRun(xm, off, pend[t].n))
  /\ pend[t].fresh \subseteq {m, xm}
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<maps, solo, kind, word>>
\* no block: only because the system refused, and nothing is kept
RetNull(t) == /\ pend[t].op \in {"malloc", "generate"} /\ pend[t].failed /\ pend[t].fresh = {}
              /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<maps, live, solo, kind, word>>
\* a block which is too large for any address space
RetTooLarge(t) == /\ pend[t].op = "malloc" /\ pend[t].n >= 1073741824 /\ pend[t].fresh = {}
                  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<maps, live, solo, kind, word>>
\* code is generated into a block of its own
CallGenerate(t) == /\ pend[t].op = "idle" /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = "generate"]]
                   /\ UNCHANGED <<maps, live, solo, kind, word>>
RetGenerate(t, b, m, off, xm, xoff, n) ==
  /\ pend[t].op = "generate" /\ off = xoff /\ Fits(m, off, xm, n) /\ Add(b, m, off, xm, n)
  /\ CanRun(xm, off, n)
  /\ pend[t].fresh \subseteq {m, xm}
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<maps, solo, kind, word>>
\* code runs, or is patched: it is executable
Run(b) == b \in DOMAIN live /\ CanRun(live[b].xm, live[b].off, live[b].n) /\ UNCHANGED vars
CallFree(t, b) == /\ pend[t].op = "idle" /\ b \in DOMAIN live
                  /\ live' = [c \in DOMAIN live \ {b} |-> live[c]]
                  /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = "free", !.m = live[b].m]]
                  /\ UNCHANGED <<maps, solo, kind, word>>
\* unused memory is returned when the rest has enough space
Total(S) == SumSet(S, [m \in S |-> maps[m].n - CHUNKOVER])
Need == SumSet(DOMAIN live, [b \in DOMAIN live |-> live[b].n + OVER])
MustRelease(m) == /\ m \in DOMAIN maps /\ ~ Used(m)
                  /\ Total({c \in DOMAIN maps \ {m} : maps[c].w # {}}) * 2 > Need * 3
RetFree(t) == /\ pend[t].op = "free"
              /\ kind = "wx" => pend[t].m \notin DOMAIN maps
              /\ kind # "wx" /\ solo => ~ MustRelease(pend[t].m)
              /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<maps, live, solo, kind, word>>
CallTrim(t) == /\ pend[t].op = "idle" /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = "trim"]]
               /\ UNCHANGED <<maps, live, solo, kind, word>>
RetTrim(t) == /\ pend[t].op = "trim"
              /\ (\A s \in Threads \ {t} : pend[s].op = "idle") /\ solo => \A m \in DOMAIN maps : Used(m)
              /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<maps, live, solo, kind, word>>

----------------------------------------------------------------------------
\* every block lies in mapped memory and shares it with no other block
Inside == \A b \in DOMAIN live : live[b].m \in DOMAIN maps /\ live[b].xm \in DOMAIN maps
                                 /\ live[b].off + live[b].n <= maps[live[b].m].n
Disjoint == \A b, c \in DOMAIN live : b # c /\ (live[b].m = live[c].m \/ live[b].xm = live[c].xm)
               => ~ Overlap(live[b].off, live[b].n, live[c].off, live[c].n)
NoWX == kind # "rwx" => \A m \in DOMAIN maps : maps[m].w \cap maps[m].x = {}
=============================================================================
