------------------------------ MODULE BslEdit -------------------------------
(***************************************************************************)
(* Programs with a small change in the middle, and what the machine says   *)
(* of each: an error at this token, these broken context rules, or this    *)
(* tree.  A growing program only shows errors at its end; here what        *)
(* follows an error is the rest of a sensible program.                     *)
(*                                                                         *)
(* An edit is <<kind, place, token>>: del, dup (twice in a row), swp (with *)
(* the next), ins (token in front), rep (token instead), mov (the token    *)
(* from another place inserted in front).                                  *)
(***************************************************************************)
EXTENDS Bsl, FiniteSets, SequencesExt

(* The lexer joins a string literal with a preceding string or date        *)
(* literal; such neighbours are a lexical matter and not explored here.    *)
Glue(a, b) == Kd(a) \in {"STR", "DATE"} /\ Kd(b) = "STR"
GlueFree(s) == \A i \in 1..Len(s) - 1 : ~Glue(s[i], s[i+1])

Alphabet == {<<x, "">> : x \in Keywords \cup BinOps \cup
                 {"(", ")", "[", "]", ",", ".", ";", ":", "?", "EOF"}}
            \cup {<<"ID", "q">>, <<"NUM", "1">>, <<"STR", "q">>, <<"DATE", "d1">>,
                  <<"LABEL", "q">>, <<"DIR", "d1">>}
Letters6 == {<<"ID", "q">>, <<"NUM", "905">>, <<"STR", "q">>, <<"DATE", "d905">>, <<"LABEL", "q">>, <<"DIR", "d1">>}
Alpha == SetToSeq({t \in Alphabet : Kd(t) \notin {"EOF", "ID", "NUM", "STR", "DATE", "LABEL", "DIR"}} \cup Letters6)

RECURSIVE States(_, _)
States(st, p) == IF p = <<>> THEN <<st>> ELSE <<st>> \o States(Step(st, Head(p)), Tail(p))

(* the rest of the text, from state st                                     *)
RECURSIVE Rest(_, _)
Rest(st, p) == IF p = <<>> THEN End(st) ELSE IF st.status # "ok" THEN st ELSE Rest(Step(st, Head(p)), Tail(p))

From(p, i) == SubSeq(p, i, Len(p))
Head4(p) == IF Len(p) > 4 THEN SubSeq(p, 1, 4) ELSE p
Edited(p, e) ==              \* <<what replaces the text from the place on>>
  LET i == e[2] IN
  CASE e[1] = "del" -> From(p, i + 1)
    [] e[1] = "dup" -> <<p[i]>> \o From(p, i)
    [] e[1] = "swp" -> <<p[i+1], p[i]>> \o From(p, i + 2)
    [] e[1] \in {"ins", "mov"} -> <<e[3]>> \o From(p, i)
    [] e[1] = "rep" -> <<e[3]>> \o From(p, i + 1)

Verdict(st, q, e) ==
  LET r == Rest(st, q)
      ok == r.status = "acc" /\ r.sem = <<>>
      m == Module(r)
  IN [e |-> e, s |-> r.status, at |-> r.at, sem |-> r.sem,
      g |-> IF ok THEN m.g ELSE <<>>, body |-> IF ok THEN m.body ELSE <<>>, x |-> <<>>]

(* Edits at every stride-th place; mix chooses among the tokens to put in. *)
EditsOf(p, mix, stride) ==
  LET n == Len(p)
      S == States(Init0, p)
      a(i, j) == Alpha[((i * 31 + j * 17 + mix * 7 + n) % Len(Alpha)) + 1]
      o(i) == p[((i * 13 + mix * 5) % n) + 1]
      places == {i \in 1..n : (i + mix) % stride = 0}
      edits == {<<"del", i, "">> : i \in places} \cup {<<"dup", i, "">> : i \in places}
               \cup {<<"swp", i, "">> : i \in places \ {n}}
               \cup UNION {{<<"ins", i, a(i, j)>>, <<"rep", i, a(i, j + 2)>>} : i \in places, j \in 1..2}
               \cup {<<"mov", i, o(i)>> : i \in places}
      before(i) == IF i = 1 THEN <<>> ELSE <<p[i-1]>>
  IN {Verdict(S[e[2]], Edited(p, e), e) :
        e \in {x \in edits : GlueFree(before(x[2]) \o Head4(Edited(p, x)))}}
=============================================================================
