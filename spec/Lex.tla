--------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* The lexical machine of the 1C (BSL) language: one character per step.   *)
(* It says which tokens a text consists of, where each begins and ends,    *)
(* what its literal is, and where the text stops being lexically valid.    *)
(*                                                                         *)
(* Characters are Unicode code points, texts are sequences of them.        *)
(* A token is the tuple <<kind, literal, start, end, gap>>: its characters *)
(* are start+1..end; gap is how far white space that belongs to the        *)
(* reading of a string or date literal may reach.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Characters.                                                             *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Russian == "АБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯабвгдежзийклмнопрстуфхцчшщъыьэюя"
OtherCh == ("Ё" :> 1025) @@ ("ё" :> 1105) @@ ("\t" :> 9) @@ ("\n" :> 10) @@ ("\r" :> 13) @@ ("\f" :> 12)
           @@ ("İ" :> 304) @@ ("ß" :> 223) @@ ("Җ" :> 1174) @@ ("є" :> 1108) @@ ("中" :> 20013) @@ ("№" :> 8470) @@ ("�" :> 65533)
CodeOf == OtherCh @@ [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> 31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)]
                  @@ [c \in {SubSeq(Russian, i, i) : i \in 1..Len(Russian)} |-> 1039 + (CHOOSE i \in 1..Len(Russian) : SubSeq(Russian, i, i) = c)]
Text(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]     \* a text written as a string
Chars(s) == {CodeOf[SubSeq(s, i, i)] : i \in 1..Len(s)}

NL == 10
Quote == 34
Apos == 39
Bar == 124
Slash == 47
Hash == 35
Dot == 46
Zero == 48

Digits == 48..57
IsDigit(c) == c >= 48 /\ c <= 57
IsLetter(c) == \/ c >= 97 /\ c <= 122
               \/ c >= 65 /\ c <= 90
               \/ c = 95
               \/ c >= 1040 /\ c <= 1103
               \/ c \in {1025, 1105, 304, 223, 1174, 1108, 20013}      \* also letters of other alphabets
IsWord(c) == IsLetter(c) \/ IsDigit(c)
Space == {32, 9, 13, 10}
PunctText == [c \in Chars(";(),-+*?[]:%=") |-> CHOOSE x \in DOMAIN CodeOf : CodeOf[x] = c]

FoldCh(c) == IF (c >= 65 /\ c <= 90) \/ (c >= 1040 /\ c <= 1071) THEN c + 32 ELSE IF c = 1025 THEN 1105 ELSE c
FoldText(s) == [i \in 1..Len(s) |-> FoldCh(s[i])]

-----------------------------------------------------------------------------
(* Words.                                                                  *)
KeywordTable == {
  <<Text("процедура"), "Procedure">>,
  <<Text("перем"), "Var">>,
  <<Text("перейти"), "GoTo">>,
  <<Text("конецпроцедуры"), "EndProcedure">>,
  <<Text("знач"), "Val">>,
  <<Text("если"), "If">>,
  <<Text("тогда"), "Then">>,
  <<Text("иначеесли"), "ElseIf">>,
  <<Text("иначе"), "Else">>,
  <<Text("конецесли"), "EndIf">>,
  <<Text("для"), "For">>,
  <<Text("каждого"), "Each">>,
  <<Text("из"), "In">>,
  <<Text("по"), "To">>,
  <<Text("цикл"), "Loop">>,
  <<Text("конеццикла"), "EndLoop">>,
  <<Text("прервать"), "Break">>,
  <<Text("продолжить"), "Continue">>,
  <<Text("попытка"), "Try">>,
  <<Text("новый"), "New">>,
  <<Text("исключение"), "Catch">>,
  <<Text("пока"), "While">>,
  <<Text("конецпопытки"), "EndTry">>,
  <<Text("функция"), "Function">>,
  <<Text("конецфункции"), "EndFunction">>,
  <<Text("возврат"), "Return">>,
  <<Text("вызватьисключение"), "Throw">>,
  <<Text("и"), "And">>,
  <<Text("или"), "Or">>,
  <<Text("истина"), "True">>,
  <<Text("ложь"), "False">>,
  <<Text("неопределено"), "Undef">>,
  <<Text("не"), "Not">>,
  <<Text("экспорт"), "Export">>,
  <<Text("выполнить"), "Execute">>}
KeywordKind == [x \in {e[1] : e \in KeywordTable} |-> (CHOOSE e \in KeywordTable : e[1] = x)[2]]
KeywordWords == DOMAIN KeywordKind
DirectiveWords == {Text("наклиенте"), Text("насервере"), Text("насерверебезконтекста"),
                   Text("наклиентенасерверебезконтекста"), Text("наклиентенасервере")}

WordKind(w, afterDot) ==
  LET f == FoldText(w) IN IF ~afterDot /\ f \in KeywordWords THEN KeywordKind[f] ELSE "ID"

-----------------------------------------------------------------------------
(* Literals.                                                               *)
RECURSIVE NumRange(_, _, _)
NumRange(s, i, j) == IF j < i THEN 0 ELSE 10 * NumRange(s, i, j - 1) + (s[j] - Zero)
OnlyDigits(s) == SelectSeq(s, IsDigit)
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

Zeros(d) == \A i \in 1..Len(d) : d[i] = Zero
(* <<"ok", year, month, day, hour, minute, second>>, <<"empty">>, <<"bad">> or <<"any">> *)
DateValue(d) ==
  LET n == Len(d)
      p(i, j) == NumRange(d, i, j)
      y == p(1, 4)  mo == p(5, 6)  da == p(7, 8)
      h == IF n >= 12 THEN p(9, 10) ELSE 0
      mi == IF n >= 12 THEN p(11, 12) ELSE 0
      se == IF n = 14 THEN p(13, 14) ELSE 0
  IN IF n \notin {8, 12, 14} THEN (IF n > 0 /\ Zeros(d) THEN <<"any">> ELSE <<"bad">>)
     ELSE IF Zeros(d) THEN <<"empty">>
     ELSE IF y = 0 THEN <<"any">>
     ELSE IF mo \in 1..12 /\ da \in 1..DaysIn(y, mo) /\ h <= 23 /\ mi <= 59 /\ se <= 59
          THEN <<"ok", y, mo, da, h, mi, se>>
          ELSE <<"bad">>

(* <<"ok", digits, scale>>: digits / 10^scale; <<"bad">>; <<"any">> for "1." *)
NumberValue(s) ==
  LET dots == Count(s, Dot) IN
  IF dots = 0 THEN <<"ok", s, 0>>
  ELSE IF dots > 1 THEN <<"bad">>
  ELSE LET i == CHOOSE i \in 1..Len(s) : s[i] = Dot IN
       IF i = Len(s) THEN <<"any">> ELSE <<"ok", OnlyDigits(s), Len(s) - i>>

-----------------------------------------------------------------------------
(* The machine.                                                            *)
(* mode: gap | word | num | str | strq | strnl | strsl | strcm | strend |  *)
(*       date | datend | slash | cmt | rgn | amp | lab | lt | gt           *)
Lex0 == [mode |-> "gap", buf |-> <<>>, start |-> 0, end |-> 0, pos |-> 0, toks |-> <<>>,
         bol |-> TRUE, err |-> FALSE, dc |-> FALSE]

AfterDot(s) == s.toks # <<>> /\ s.toks[Len(s.toks)][1] = "."

Emit(s, kind, lit, end, gap) ==
  [s EXCEPT !.mode = "gap", !.buf = <<>>, !.toks = Append(@, <<kind, lit, s.start, end, gap>>),
            !.dc = @ \/ (kind = "." /\ AfterDot(s))
                     \/ (kind = "STR" /\ s.toks # <<>> /\ s.toks[Len(s.toks)][1] = "STR")]
Fail(s) == [s EXCEPT !.err = TRUE]
Open(s) == [s EXCEPT !.dc = TRUE]

CloseWord(s) == Emit(s, WordKind(s.buf, AfterDot(s)), s.buf, s.pos, s.pos)
CloseNum(s) ==
  LET v == NumberValue(s.buf) IN
  IF v[1] = "bad" THEN Fail(s) ELSE IF v[1] = "any" THEN Open(s) ELSE Emit(s, "NUM", s.buf, s.pos, s.pos)
CloseStr(s) == Emit(s, "STR", s.buf, s.end, s.pos)
CloseDate(s) ==
  LET d == OnlyDigits(s.buf) v == DateValue(d) IN
  IF v[1] = "bad" THEN Fail(s) ELSE IF v[1] = "any" THEN Open(s) ELSE Emit(s, "DATE", d, s.end, s.pos)
CloseAmp(s) == IF FoldText(s.buf) \in DirectiveWords THEN Emit(s, "DIR", <<38>> \o s.buf, s.pos, s.pos) ELSE Fail(s)
CloseLab(s) == IF s.buf = <<>> THEN Fail(s) ELSE Emit(s, "LABEL", s.buf, s.pos, s.pos)
CloseOp(s, op) == Emit(s, op, <<>>, s.pos, s.pos)

(* What has been read is complete when the next character c cannot belong  *)
(* to it; c is then read in the gap.                                       *)
RECURSIVE Read(_, _)

Gap(s, c) ==
  LET t == [s EXCEPT !.start = s.pos, !.buf = <<>>]
      q == [t EXCEPT !.pos = @ + 1, !.bol = FALSE]
  IN CASE c \in Space -> [s EXCEPT !.pos = @ + 1, !.bol = @ \/ c = NL]
       [] IsLetter(c) -> [q EXCEPT !.mode = "word", !.buf = <<c>>]
       [] IsDigit(c) -> [q EXCEPT !.mode = "num", !.buf = <<c>>]
       [] c = Dot -> Emit(q, ".", <<>>, q.pos, q.pos)
       [] c \in DOMAIN PunctText -> Emit(q, PunctText[c], <<>>, q.pos, q.pos)
       [] c = Slash -> [q EXCEPT !.mode = "slash", !.bol = s.bol]
       [] c = 60 -> [q EXCEPT !.mode = "lt"]
       [] c = 62 -> [q EXCEPT !.mode = "gt"]
       [] c = Quote -> [q EXCEPT !.mode = "str"]
       [] c = Apos -> [q EXCEPT !.mode = "date"]
       [] c = 38 -> [q EXCEPT !.mode = "amp"]
       [] c = 126 -> [q EXCEPT !.mode = "lab"]
       [] c = Hash -> IF s.bol THEN [q EXCEPT !.mode = "rgn"] ELSE Open(q)
       [] OTHER -> Fail(t)

Read(s, c) ==
  LET n == [s EXCEPT !.pos = @ + 1]
      add == [n EXCEPT !.buf = Append(@, c)]
      to(m) == [n EXCEPT !.mode = m]
      again(x) == IF x.err \/ x.dc THEN x ELSE Read(x, c)
  IN IF s.err \/ s.dc THEN s ELSE
  CASE s.mode = "gap" -> Gap(s, c)
    [] s.mode = "word" -> IF IsWord(c) THEN add ELSE again(CloseWord(s))
    [] s.mode = "num" -> IF IsDigit(c) \/ c = Dot THEN add
                         ELSE IF IsLetter(c) THEN Fail(s) ELSE again(CloseNum(s))
    [] s.mode = "str" -> IF c = Quote THEN to("strq") ELSE IF c = NL THEN to("strnl") ELSE add
    [] s.mode = "strq" ->            \* a quote: doubled, or the end
         IF c = Quote THEN [n EXCEPT !.mode = "str", !.buf = @ \o <<Quote, Quote>>]
         ELSE Read([s EXCEPT !.mode = "strend", !.end = s.pos, !.bol = FALSE], c)
    [] s.mode = "strend" ->          \* after the end: white space and another literal go on
         IF c \in Space THEN [n EXCEPT !.bol = @ \/ c = NL]
         ELSE IF c = Quote THEN to("str") ELSE again(CloseStr(s))
    [] s.mode = "strnl" ->           \* a line break: white space and comments, then |
         IF c = NL THEN Open(n) ELSE IF c \in Space THEN n
         ELSE IF c = Slash THEN to("strsl")
         ELSE IF c = Bar THEN [n EXCEPT !.mode = "str", !.buf = @ \o <<NL, Bar>>] ELSE Fail(s)
    [] s.mode = "strsl" -> IF c = Slash THEN to("strcm") ELSE Fail(s)
    [] s.mode = "strcm" -> IF c = NL THEN to("strcn") ELSE n
    [] s.mode = "strcn" ->           \* after a comment line; a region line here is left open
         IF c \in {Hash, NL} THEN Open(n) ELSE IF c \in Space THEN n ELSE Read([s EXCEPT !.mode = "strnl"], c)
    [] s.mode = "date" -> IF c = Apos THEN [n EXCEPT !.mode = "datend", !.end = n.pos, !.bol = FALSE]
                          ELSE IF c = NL THEN Open(n) ELSE add
    [] s.mode = "datend" -> IF c \in Space THEN [n EXCEPT !.bol = @ \/ c = NL]
                            ELSE again(CloseDate(s))
    [] s.mode = "slash" -> IF c = Slash THEN to("cmt") ELSE again([CloseOp(s, "/") EXCEPT !.bol = FALSE])
    [] s.mode \in {"cmt", "rgn"} -> IF c = NL THEN [n EXCEPT !.mode = "gap", !.bol = TRUE] ELSE n
    [] s.mode = "amp" -> IF IsWord(c) THEN add ELSE again(CloseAmp(s))
    [] s.mode = "lab" -> IF IsWord(c) THEN add ELSE again(CloseLab(s))
    [] s.mode = "lt" -> IF c = 62 THEN CloseOp(n, "<>") ELSE IF c = 61 THEN CloseOp(n, "<=") ELSE again(CloseOp(s, "<"))
    [] s.mode = "gt" -> IF c = 61 THEN CloseOp(n, ">=") ELSE again(CloseOp(s, ">"))

RECURSIVE ReadRange(_, _, _, _)
(* (by halves, and with a look at the state, so that TLC does not postpone   *)
(* everything to the end)                                                   *)
ReadRange(s, text, i, j) ==
  IF i > j \/ s.err \/ s.dc THEN s
  ELSE IF i = j THEN Read(s, text[i])
  ELSE LET m == (i + j) \div 2 IN ReadRange(ReadRange(s, text, i, m), text, m + 1, j)
ReadAll(s, text) == ReadRange(s, text, 1, Len(text))

(* The text ends here.                                                     *)
EndOfText(s) ==
  IF s.err \/ s.dc THEN s ELSE
  CASE s.mode \in {"gap", "cmt", "rgn"} -> s
    [] s.mode = "word" -> CloseWord(s)
    [] s.mode = "num" -> CloseNum(s)
    [] s.mode = "strq" -> CloseStr([s EXCEPT !.end = s.pos])
    [] s.mode = "strend" -> CloseStr(s)
    [] s.mode = "datend" -> CloseDate(s)
    [] s.mode = "slash" -> CloseOp(s, "/")
    [] s.mode = "lt" -> CloseOp(s, "<")
    [] s.mode = "gt" -> CloseOp(s, ">")
    [] s.mode = "amp" -> CloseAmp(s)
    [] s.mode = "lab" -> CloseLab(s)
    [] OTHER -> Fail(s)              \* inside a string or date literal

LexAll(text) == EndOfText(ReadAll(Lex0, text))
=============================================================================
