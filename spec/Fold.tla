-------------------------------- MODULE Fold --------------------------------
(***************************************************************************)
(* Case folding.  Characters are Unicode code points; the machine reads a  *)
(* text character by character and writes the folded text.  The folding is *)
(* the one by which keywords, directives and names are compared (Lex).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Alphabet,   \* code points
          MaxLen,
          Block       \* > 0: each initial text is one block of that many consecutive code points

VARIABLES in, out
vars == <<in, out>>

Latin == 65..90
Russian == 1040..1071
FoldCh(c) == CASE c \in Latin -> c + 32
               [] c \in Russian -> c + 32
               [] c = 1025 -> 1105
               [] OTHER -> c

Valid(c) == c \in 0..1114111 /\ c \notin 55296..57343
Blocks == IF Block = 0 THEN {<<>>}
          ELSE {SelectSeq([i \in 1..Block |-> b * Block + i - 1], Valid) : b \in 0..(1114112 \div Block) - 1}

FoldAll(s) == [i \in 1..Len(s) |-> FoldCh(s[i])]

Init == in \in {b \in Blocks : Block = 0 \/ b # <<>>} /\ out = FoldAll(in)
Next == /\ Block = 0
        /\ Len(in) < MaxLen
        /\ \E c \in Alphabet : in' = Append(in, c) /\ out' = Append(out, FoldCh(c))

-----------------------------------------------------------------------------
(* The letters of the two alphabets, one by one.                           *)
Capital(c) == c \in Latin \/ c \in Russian \/ c = 1025
Small(c) == c \in 97..122 \/ c \in 1072..1103 \/ c = 1105
Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

Good ==
  /\ Len(out) = Len(in)
  /\ out = FoldAll(in)
  /\ \A i \in 1..Len(in) : (out[i] # in[i] <=> Capital(in[i]))       \* exactly the capitals change
  /\ \A i \in 1..Len(in) : ~Capital(out[i])                          \* so folding twice is folding once
  /\ \A i \in 1..Len(in) : Capital(in[i]) => Small(out[i])
  /\ \A i \in 1..Len(in) : Width(out[i]) = Width(in[i])              \* and the encoded length stays
  /\ Len(in) > 8 \/ \A c, d \in {in[i] : i \in 1..Len(in)} : (FoldCh(c) = FoldCh(d) /\ c # d) => (Capital(c) # Capital(d))
  /\ PrintT(ToJson([x |-> in, y |-> out]))

-----------------------------------------------------------------------------
None == {}
(* the borders of every range, and characters whose encodings share bytes   *)
A_Border == {0, 10, 64, 65, 77, 90, 91, 96, 97, 122, 127, 128, 192, 1024, 1025, 1039, 1040, 1055, 1056, 1071, 1072, 1087, 1088, 1103, 1104, 1105,
             2047, 2048, 8470, 65535, 65536, 1114111}
A_Few == {65, 90, 97, 48, 1025, 1040, 1055, 1056, 1071, 1072, 1105, 20013, 128512}
=============================================================================
