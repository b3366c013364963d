--------------------------- MODULE SessionTrace ---------------------------
(***************************************************************************)
(* Validates recorded sessions.  An event is                               *)
(*  <<op, compiler, obtained, returned, failed memory requests, failed     *)
(*    requests of executable memory, bad use, result, error, count>>       *)
(* A record has the sessions of one program; exec blocks are recognized by *)
(* the event in which they appear: generate obtains its code last.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Rec(i) == TLCGet(7)[i]
NRecs == Len(TLCGet(7))
VARIABLES ri, si, k, verdict, live, err, own, buffers, codes, heap
Compilers == {1, 2}
Blocks == Nat
S == INSTANCE Session
tvars == <<ri, si, k, verdict, live, err, own, buffers, codes, heap>>
Sessions == Rec(ri).sessions
E == Sessions[si][k]
Range(s) == {s[i] : i \in 1..Len(s)}
Reset == /\ live' = {} /\ buffers' = {} /\ codes' = {} /\ heap' = {}
         /\ err' = [c \in Compilers |-> 0] /\ own' = [c \in Compilers |-> {}]
TInit == /\ ri \in 1..NRecs /\ si = 1 /\ k = 1 /\ verdict = "run"
         /\ S!Init
\* deserializing is creating; a failure may also have other reasons
Step(e) ==
  LET c == e[2] A == Range(e[3]) G == Range(e[4]) fm == e[5] fx == e[6] ret == e[8]
  IN /\ e[7] = 0 /\ Cardinality(G) = Len(e[4])
     /\ CASE e[1] = "create" -> S!Create(c, A, G, fm, fx, ret)
          [] e[1] = "deserialize" -> S!Create(c, A, G, fm, fx, ret)
          [] e[1] = "emit" -> S!Emit(c, A, G, fm, fx, ret)
          [] e[1] = "alloc" -> S!Alloc(c, A, G, fm, fx, ret)
          [] e[1] = "usererr" -> S!UserError(c, A, G, fm, fx)
          [] e[1] = "generate" -> \E X \in {{}} \cup {{x} : x \in A} : S!Generate(c, A \ X, X, G, fm, fx, ret, FALSE)
          [] e[1] = "generate_buffer" -> S!Generate(c, A, {}, G, fm, fx, ret, TRUE)
          [] e[1] = "free" -> S!Free(c, A, G, fm, fx)
          [] e[1] = "freecode" -> S!FreeCode(A, G, fm, fx)
          [] e[1] = "serialize" -> S!Serialize(c, A, G, fm, fx, ret)
          [] e[1] = "freebuf" -> S!FreeBuffer(A, G, fm, fx)
          [] OTHER -> FALSE
     /\ e[1] \in {"free", "freecode", "freebuf"} \/ err'[c] = e[9]
Play == /\ verdict = "run" /\ k <= Len(Sessions[si])
        /\ Step(E) /\ k' = k + 1 /\ UNCHANGED <<ri, si, verdict>>
\* everything has been released at the end of a session
EndSession == /\ verdict = "run" /\ k = Len(Sessions[si]) + 1 /\ heap = {} /\ live = {} /\ codes = {} /\ buffers = {}
              /\ Reset /\ UNCHANGED ri
              /\ IF si = Len(Sessions) THEN verdict' = "ok" /\ UNCHANGED <<si, k>> ELSE si' = si + 1 /\ k' = 1 /\ UNCHANGED verdict
TNext == Play \/ EndSession
Spec == TInit /\ [][TNext]_tvars
Sound == S!Accounted /\ S!Separate /\ S!NoLeak
Note == /\ (verdict = "ok" => TLCSet(1, TLCGet(1) \cup {ri}))
\* the furthest point reached by each record
View == <<ri, si, k, verdict, live, err, own, buffers, codes, heap>>
ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..NRecs |-> <<1, 1>>])
Progress == /\ Note
            /\ LET f == TLCGet(2)[ri] IN (si > f[1] \/ (si = f[1] /\ k > f[2])) => TLCSet(2, [TLCGet(2) EXCEPT ![ri] = <<si, k>>])
Done == LET ok == TLCGet(1) IN
  /\ \A i \in 1..NRecs : i \in ok \/ PrintT(<<"REJECT", Rec(i).id, TLCGet(2)[i][2], ToString(TLCGet(2)[i][1]),
        IF TLCGet(2)[i][2] <= Len(Rec(i).sessions[TLCGet(2)[i][1]]) THEN Rec(i).sessions[TLCGet(2)[i][1]][TLCGet(2)[i][2]] ELSE "end">>)
  /\ PrintT(<<"VERDICTS", Cardinality(ok), NRecs - Cardinality(ok), NRecs>>)
=============================================================================
