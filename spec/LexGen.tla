------------------------------- MODULE LexGen -------------------------------
(***************************************************************************)
(* Exploration of the lexical machine: texts grow chunk by chunk, the      *)
(* invariant Good is checked in every state and every state is written out *)
(* as a test vector for Token.Next and for the parser.                     *)
(***************************************************************************)
EXTENDS Lex, Json

CONSTANTS Chunks,     \* set of texts
          Groups,     \* random walks: one chunk is drawn from each group
          Start,      \* set of texts
          Closing,       \* every state is also judged with this text behind it
          MaxK,
          MinK

VARIABLES text, lx, k
vars == <<text, lx, k>>

Init == /\ text \in Start
        /\ lx = ReadAll(Lex0, text)
        /\ k = 0

Add(c) == /\ k < MaxK
          /\ ~lx.err /\ ~lx.dc
          /\ text' = text \o c
          /\ lx' = ReadAll(lx, c)
          /\ k' = k + 1

Draw == {RandomElement(g) : g \in Groups}
Next == \E c \in (IF Groups = {} THEN Chunks ELSE Draw) : Add(c)
Spec == Init /\ [][Next]_vars

(* The rest of the state is a function of these.                           *)
View == <<text, k>>

-----------------------------------------------------------------------------
Failed(what) == PrintT("violated: " \o what) /\ FALSE
Sub(a, b) == SubSeq(text, a + 1, b)       \* characters a+1..b

(* Tokens stand in the order of the text and do not overlap.               *)
Ordered(e) ==
  LET t == e.toks n == Len(e.toks) IN
  /\ \A i \in 1..n : t[i][3] < t[i][4] /\ t[i][4] <= t[i][5] /\ t[i][5] <= e.pos
  /\ \A i \in 1..n - 1 : t[i][5] <= t[i+1][3]

(* Tokens are never taken back (Stable), so every token need be looked at   *)
(* only in the states in which it is the last one or the one before.       *)
New(e) == {i \in 1..Len(e.toks) : i >= Len(e.toks) - 1}

(* What lies between tokens is white space, comments and region lines,     *)
(* said without the machine: line by line.                                 *)
At(i) == text[i]
RECURSIVE GapText(_, _, _)    \* characters i..j; bol: i begins a line
RECURSIVE LineEnd(_, _)
LineEnd(i, j) == IF i > j \/ At(i) = NL THEN i ELSE LineEnd(i + 1, j)
GapText(i, j, bol) ==
  \/ i > j
  \/ At(i) \in Space /\ GapText(i + 1, j, bol \/ At(i) = NL)
  \/ At(i) = Slash /\ i < j /\ At(i + 1) = Slash /\ GapText(LineEnd(i, j), j, FALSE)
  \/ At(i) = Hash /\ bol /\ GapText(LineEnd(i, j), j, FALSE)
GapsOK(e) ==
  LET t == e.toks n == Len(e.toks) IN
  /\ \A i \in New(e) : GapText((IF i = 1 THEN 0 ELSE t[i-1][4]) + 1, t[i][3], i = 1)
  /\ GapText((IF n = 0 THEN 0 ELSE t[n][4]) + 1, Len(text), n = 0)

(* A token read by itself is the same token; nothing is read twice.        *)
Alone(e) ==
  \A i \in New(e) :
    LET t == e.toks[i]
        z == IF i > 1 /\ e.toks[i-1][1] = "." THEN Read(Lex0, Dot) ELSE Lex0
        a == EndOfText(ReadRange(z, text, t[3] + 1, t[4]))
    IN Len(a.toks) >= 1 /\ a.toks[Len(a.toks)][1] = t[1] /\ a.toks[Len(a.toks)][2] = t[2]

(* Keywords are words, in any case, and never stand after a dot.           *)
WordsOK(e) ==
  \A i \in New(e) :
    LET t == e.toks[i] IN
    t[1] \in {KeywordKind[x] : x \in KeywordWords} =>
      /\ FoldText(Sub(t[3], t[4])) \in KeywordWords
      /\ i = 1 \/ e.toks[i-1][1] # "."

(* A literal keeps the characters between its quotes (one literal without   *)
(* continuation lines).                                                    *)
LiteralOK(e) ==
  \A i \in New(e) :
    LET t == e.toks[i] raw == Sub(t[3], t[4]) IN
    /\ t[1] = "STR" /\ Count(raw, NL) = 0 /\ Count(raw, Quote) = 2 => raw = <<Quote>> \o t[2] \o <<Quote>>
    /\ t[1] \in {"ID", "NUM", "DIR"} => raw = t[2]

Value(t) == CASE t[1] = "NUM" -> NumberValue(t[2]) [] t[1] = "DATE" -> DateValue(t[2]) [] OTHER -> <<>>

Vector(x, e) ==
  PrintT(ToJson([text |-> x, dc |-> e.dc, err |-> e.err,
        toks |-> [i \in 1..Len(e.toks) |-> <<e.toks[i][1], e.toks[i][2], e.toks[i][3], e.toks[i][4], e.toks[i][5]>>],
        vals |-> [i \in 1..Len(e.toks) |-> Value(e.toks[i])]]))

Good ==
  LET e == EndOfText(lx) IN
  /\ e.dc \/ Ordered(e) \/ Failed("Ordered")
  /\ e.dc \/ e.err \/ GapsOK(e) \/ Failed("Gaps")
  /\ e.dc \/ Alone(e) \/ Failed("Alone")
  /\ e.dc \/ WordsOK(e) \/ Failed("Words")
  /\ e.dc \/ LiteralOK(e) \/ Failed("Literal")
  /\ k < MinK \/ IF Closing = <<>> THEN Vector(text, e) ELSE Vector(text \o Closing, EndOfText(ReadAll(lx, Closing)))

(* Emitted tokens are never taken back.                                    *)
Stable == [][Len(lx.toks) <= Len(lx'.toks) /\ SubSeq(lx'.toks, 1, Len(lx.toks)) = lx.toks /\ lx'.pos >= lx.pos]_vars
=============================================================================
