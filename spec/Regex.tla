------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The pattern language of regex_src and what a match is.                  *)
(*                                                                         *)
(* Patterns and inputs are sequences of character codes.  A pattern is     *)
(*   ^? alternatives $?      ^ and $ only as the first and last character  *)
(* alternatives are separated by |, a sequence has terms                   *)
(*   \c  .  [..]  [^..]  ( )  c                                            *)
(* followed by any number of                                               *)
(*   * + ? {n} {n,} {,m} {n,m} {n!}                                        *)
(* where {n!} gives the identifier n to what is matched up to here (it may *)
(* also start a sequence), and a { which does not start one of these is an *)
(* ordinary character.                                                     *)
(*                                                                         *)
(* Meaning: Run(x, S) maps the positions reached (each with the largest    *)
(* identifier on a way to it) to those reached after x.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Byte == 0..255
CR == 13  LF == 10  Newlines == {CR, LF}
Code(c) == CASE c = "(" -> 40 [] c = ")" -> 41 [] c = "*" -> 42 [] c = "+" -> 43 [] c = "," -> 44 [] c = "-" -> 45
             [] c = "." -> 46 [] c = "0" -> 48 [] c = "9" -> 57 [] c = "?" -> 63 [] c = "[" -> 91 [] c = "\\" -> 92
             [] c = "]" -> 93 [] c = "^" -> 94 [] c = "{" -> 123 [] c = "|" -> 124 [] c = "}" -> 125 [] c = "!" -> 33 [] c = "$" -> 36
Is(p, i, c) == i <= Len(p) /\ p[i] = Code(c)
Empty == <<"seq", <<>>>>
Max(a, b) == IF a > b THEN a ELSE b
----------------------------------------------------------------------------
(* numbers and iterators *)
RECURSIVE Digits(_, _, _)
Digits(p, i, v) == IF i <= Len(p) /\ p[i] \in Code("0")..Code("9") THEN Digits(p, i + 1, v * 10 + p[i] - 48) ELSE <<i, v>>
IsDigit(p, i) == i <= Len(p) /\ p[i] \in Code("0")..Code("9")
NoIter == [k |-> "none", min |-> 0, max |-> 0, next |-> 0]
\* at the { : what follows, or none
Iter(p, i) ==
  LET a == Digits(p, i + 1, 0)                  \* the first number
      c == IF Is(p, i + 1, ",") THEN i + 1 ELSE a[1]   \* its end
      b == Digits(p, c + 1, 0)
  IN IF Is(p, i + 1, ",") \/ IsDigit(p, i + 1)
     THEN LET min == IF Is(p, i + 1, ",") THEN 0 ELSE a[2] IN
          CASE ~ Is(p, i + 1, ",") /\ Is(p, c, "}") -> [k |-> "rep", min |-> min, max |-> min, next |-> c + 1]
            [] ~ Is(p, i + 1, ",") /\ Is(p, c, "!") /\ Is(p, c + 1, "}") -> [k |-> "id", min |-> min, max |-> 0, next |-> c + 2]
            [] Is(p, c, ",") /\ Is(p, c + 1, "}") -> [k |-> "rep", min |-> min, max |-> -1, next |-> c + 2]
            [] Is(p, c, ",") /\ IsDigit(p, c + 1) /\ Is(p, b[1], "}") /\ b[2] >= min -> [k |-> "rep", min |-> min, max |-> b[2], next |-> b[1] + 1]
            [] OTHER -> NoIter
     ELSE NoIter
----------------------------------------------------------------------------
(* character sets: <<ok, set, next>> *)
RECURSIVE Class(_, _, _)
Char(p, i) == IF Is(p, i, "\\") THEN <<i + 1 <= Len(p), IF i + 1 <= Len(p) THEN p[i + 1] ELSE 0, i + 2>> ELSE <<i <= Len(p), IF i <= Len(p) THEN p[i] ELSE 0, i + 1>>
Class(p, i, s) ==
  IF i > Len(p) THEN <<FALSE, s, i>>
  ELSE IF p[i] = Code("]") THEN <<TRUE, s, i + 1>>
  ELSE LET l == Char(p, i) IN
       IF ~ l[1] THEN <<FALSE, s, i>>
       ELSE IF Is(p, l[3], "-") /\ l[3] + 2 <= Len(p) /\ ~ Is(p, l[3] + 1, "]")
            THEN LET r == Char(p, l[3] + 1)
                     a == IF l[2] <= r[2] THEN l[2] ELSE r[2]
                     b == IF l[2] <= r[2] THEN r[2] ELSE l[2]
                 IN IF ~ r[1] THEN <<FALSE, s, i>> ELSE Class(p, r[3], s \cup (a..b))
            ELSE Class(p, l[3], s \cup {l[2]})
Set(p, i) == \* at the [
  LET inv == Is(p, i + 1, "^")
      j == IF inv THEN i + 2 ELSE i + 1
      r == IF Is(p, j, "]") THEN Class(p, j + 1, {Code("]")}) ELSE Class(p, j, {})
  IN <<r[1], IF inv THEN Byte \ r[2] ELSE r[2], r[3]>>
----------------------------------------------------------------------------
(* sequences and alternatives: [ok, x, next] *)
Bad == [ok |-> FALSE, x |-> Empty, next |-> 0, end |-> FALSE]
RECURSIVE Terms(_, _, _, _, _), Alts(_, _, _, _, _)
\* ts: the terms of this sequence, lead: identifiers before the first term
Terms(p, i, nl, lead, ts) ==
  LET done == [ok |-> TRUE, x |-> <<"seq", lead \o ts>>, next |-> i, end |-> FALSE]
      add(x, j) == Terms(p, j, nl, lead, Append(ts, x))
      post(x, j) == Terms(p, j, nl, lead, [ts EXCEPT ![Len(ts)] = x])
  IN IF i > Len(p) THEN done
     ELSE IF i = Len(p) /\ p[i] = Code("$") THEN [done EXCEPT !.next = i + 1, !.end = TRUE]
     ELSE CASE p[i] = Code("|") \/ p[i] = Code(")") -> done
            [] p[i] = Code("\\") -> IF i = Len(p) THEN Bad ELSE add(<<"set", {p[i + 1]}>>, i + 2)
            [] p[i] = Code(".") -> add(<<"set", IF nl THEN Byte \ Newlines ELSE Byte>>, i + 1)
            [] p[i] = Code("[") -> LET s == Set(p, i) IN IF s[1] THEN add(<<"set", s[2]>>, s[3]) ELSE Bad
            [] p[i] = Code("(") -> LET a == Alts(p, i + 1, nl, <<>>, 1)
                                   IN IF a.ok /\ Is(p, a.next, ")") /\ ~ a.end THEN add(a.x, a.next + 1) ELSE Bad
            [] p[i] = Code("*") -> IF ts = <<>> THEN Bad ELSE post(<<"rep", ts[Len(ts)], 0, -1>>, i + 1)
            [] p[i] = Code("+") -> IF ts = <<>> THEN Bad ELSE post(<<"rep", ts[Len(ts)], 1, -1>>, i + 1)
            [] p[i] = Code("?") -> IF ts = <<>> THEN Bad ELSE post(<<"rep", ts[Len(ts)], 0, 1>>, i + 1)
            [] p[i] = Code("{") -> LET it == Iter(p, i) IN
                 CASE it.k = "id" -> IF ts = <<>> THEN Terms(p, it.next, nl, Append(lead, <<"id", it.min>>), ts)
                                     ELSE post(<<"seq", <<ts[Len(ts)], <<"id", it.min>>>>>>, it.next)
                   [] it.k = "rep" /\ ts # <<>> -> post(<<"rep", ts[Len(ts)], it.min, it.max>>, it.next)
                   [] OTHER -> add(<<"set", {p[i]}>>, i + 1)
            [] OTHER -> add(<<"set", {p[i]}>>, i + 1)
Alts(p, i, nl, as, d) ==
  LET s == Terms(p, i, nl, <<>>, <<>>)
  IN IF ~ s.ok THEN Bad
     ELSE IF Is(p, s.next, "|") THEN Alts(p, s.next + 1, nl, Append(as, s.x), d)
     ELSE IF Is(p, s.next, ")") /\ d = 0 THEN Bad
     ELSE [ok |-> TRUE, x |-> IF as = <<>> THEN s.x ELSE <<"alt", Append(as, s.x)>>, next |-> s.next, end |-> s.end]
\* flags: begin, end, newline, nongreedy
Parse(p, nl) ==
  LET b == Is(p, 1, "^")
      a == Alts(p, IF b THEN 2 ELSE 1, nl, <<>>, 0)
  IN [ok |-> a.ok, begin |-> b, end |-> a.end, x |-> a.x]
----------------------------------------------------------------------------
(* meaning *)
Join(S, T) == [q \in DOMAIN S \cup DOMAIN T |-> IF q \notin DOMAIN T THEN S[q] ELSE IF q \notin DOMAIN S THEN T[q] ELSE Max(S[q], T[q])]
NoPos == [q \in {} |-> 0]
RECURSIVE Run(_, _, _), RunAll(_, _, _, _), Times(_, _, _, _), Close(_, _, _), RunAlt(_, _, _, _), UpTo(_, _, _, _)
Run(x, s, S) ==
  CASE DOMAIN S = {} -> S
    [] x[1] = "set" -> LET D == {q \in DOMAIN S : q < Len(s) /\ s[q + 1] \in x[2]} IN [q \in {r + 1 : r \in D} |-> S[q - 1]]
    [] x[1] = "id" -> [q \in DOMAIN S |-> Max(S[q], x[2])]
    [] x[1] = "seq" -> RunAll(x[2], 1, s, S)
    [] x[1] = "alt" -> RunAlt(x[2], 1, s, S)
    [] x[1] = "rep" -> LET T == Times(x[2], x[3], s, S) IN IF x[4] = -1 THEN Close(x[2], s, T) ELSE UpTo(x[2], x[4] - x[3], s, T)
RunAll(l, k, s, S) == IF k > Len(l) THEN S ELSE RunAll(l, k + 1, s, Run(l[k], s, S))
RunAlt(l, k, s, S) == IF k = Len(l) THEN Run(l[k], s, S) ELSE Join(Run(l[k], s, S), RunAlt(l, k + 1, s, S))
Times(x, n, s, S) == IF n = 0 THEN S ELSE Times(x, n - 1, s, Run(x, s, S))
UpTo(x, n, s, S) == IF n = 0 THEN S ELSE UpTo(x, n - 1, s, Join(S, Run(x, s, S)))
Close(x, s, S) == LET T == Join(S, Run(x, s, S)) IN IF T = S THEN S ELSE Close(x, s, T)

LineStart(s, b) == b = 0 \/ s[b] \in Newlines
LineEnd(s, e) == e = Len(s) \/ s[e + 1] \in Newlines
\* the ends of the matches from b, with their identifiers
Ends(x, s, f, b) == LET R == Run(x, s, [q \in {b} |-> 0])
                    IN [e \in {q \in DOMAIN R : ~ f.end \/ q = Len(s) \/ (f.newline /\ LineEnd(s, q))} |-> R[e]]
NoMatch == <<-1, 0, 0>>
RECURSIVE First(_, _, _, _)
First(x, s, f, b) ==
  IF b > Len(s) \/ (f.begin /\ ~ f.newline /\ b > 0) THEN NoMatch
  ELSE IF f.begin /\ ~ LineStart(s, b) THEN First(x, s, f, b + 1)
  ELSE LET E == Ends(x, s, f, b)
       IN IF DOMAIN E = {} THEN First(x, s, f, b + 1)
          ELSE LET e == IF f.nongreedy THEN CHOOSE q \in DOMAIN E : \A r \in DOMAIN E : q <= r
                        ELSE CHOOSE q \in DOMAIN E : \A r \in DOMAIN E : q >= r
               IN <<b, e, E[e]>>
Match(x, s, f) == First(x, s, f, 0)
=============================================================================
