----------------------------- MODULE RegexTrace -----------------------------
(***************************************************************************)
(* Validates recorded matches.  A record has the pattern, the flags, the   *)
(* error reported, and runs: each fed an input piece by piece, with the    *)
(* result <<begin, end, id, finished>> after every piece.                  *)
(***************************************************************************)
EXTENDS Regex, Json, IOUtils, TLC
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Rec(i) == TLCGet(7)[i]
NRecs == Len(TLCGet(7))
VARIABLES ri,      \* the record
          k,       \* the next run
          j,       \* the next piece
          fed,     \* the input so far
          fin,     \* the engine said that its result is final
          verdict, x, f
vars == <<ri, k, j, fed, fin, verdict, x, f>>
R == Rec(ri)
Bit(n, b) == (n \div b) % 2 = 1
Flags(r, p) == [begin |-> p.begin \/ Bit(r.flags, 1), end |-> p.end \/ Bit(r.flags, 2), newline |-> Bit(r.flags, 4), nongreedy |-> Bit(r.flags, 8)]
Init == /\ ri \in 1..NRecs /\ k = 1 /\ j = 1 /\ fed = <<>> /\ fin = FALSE
        /\ LET p == Parse(R.pat, Bit(R.flags, 4))
           IN /\ x = p.x /\ f = Flags(R, p)
              /\ verdict = IF R.leak # 0 THEN "leak" ELSE IF R.err # (IF p.ok THEN 0 ELSE 2) THEN "error"
                           ELSE IF R.runs = <<>> THEN "ok" ELSE "run"
Same(want, got) == IF want[1] = -1 THEN got[1] = -1 ELSE <<got[1], got[2], got[3]>> = want
Piece == /\ verdict = "run" /\ j <= Len(R.runs[k].pieces)
         /\ LET t == fed \o R.runs[k].pieces[j] got == R.runs[k].res[j] want == Match(x, t, f)
            IN /\ Same(want, got)
               /\ fin => got[4] = 1                      \* final results stay
               /\ fed' = t /\ fin' = (got[4] = 1)
         /\ j' = j + 1 /\ UNCHANGED <<ri, k, verdict, x, f>>
NextRun == /\ verdict = "run" /\ j > Len(R.runs[k].pieces)
           /\ IF k = Len(R.runs) THEN verdict' = "ok" /\ UNCHANGED k ELSE k' = k + 1 /\ UNCHANGED verdict
           /\ j' = 1 /\ fed' = <<>> /\ fin' = FALSE /\ UNCHANGED <<ri, x, f>>
Next == Piece \/ NextRun
Spec == Init /\ [][Next]_vars
\* a match is where the language has one
Sound == verdict = "run" /\ j > 1 => LET m == R.runs[k].res[j - 1] IN m[1] = -1 \/ (0 <= m[1] /\ m[1] <= m[2] /\ m[2] <= Len(fed))
ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..NRecs |-> <<1, 1>>])
Progress == /\ (verdict = "ok" => TLCSet(1, TLCGet(1) \cup {ri}))
            /\ LET p == TLCGet(2)[ri] IN (k > p[1] \/ (k = p[1] /\ j > p[2])) => TLCSet(2, [TLCGet(2) EXCEPT ![ri] = <<k, j>>])
Want(i) == LET r == Rec(i) p == Parse(r.pat, Bit(r.flags, 4)) at == TLCGet(2)[i]
           IN IF r.leak # 0 THEN <<"leak", r.leak>> ELSE IF r.err # (IF p.ok THEN 0 ELSE 2) THEN <<"valid", p.ok, "error", r.err>>
              ELSE LET U[n \in 0..at[2]] == IF n = 0 THEN <<>> ELSE U[n - 1] \o r.runs[at[1]].pieces[n]
                   IN <<"run", at[1], "got", r.runs[at[1]].res[at[2]], "expected", Match(p.x, U[at[2]], Flags(r, p)), "input", U[at[2]]>>
Done == LET ok == TLCGet(1) IN
  /\ \A i \in 1..NRecs : i \in ok \/ PrintT(<<"REJECT", Rec(i).id, TLCGet(2)[i][2], "piece", Want(i)>>)
  /\ PrintT(<<"VERDICTS", Cardinality(ok), NRecs - Cardinality(ok), NRecs>>)
=============================================================================
