------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* The whole front end: a text is read character by character by the       *)
(* lexical machine (Lex), and every token it completes is given to the     *)
(* language machine (Bsl).  The state says what a parser must make of the  *)
(* text read so far, and of that text with the machines' own completion    *)
(* behind it.                                                              *)
(*                                                                         *)
(* The value of a token is its number in the text and, for a name, its     *)
(* folded spelling (by which the language compares names).                 *)
(***************************************************************************)
EXTENDS Bsl, Lex, BslSym, Json

CONSTANT Ask          \* a further prediction for the programs: "", "walk", "json", "lines"
Tr == INSTANCE BslTree
Wk == INSTANCE BslWalk
Js == INSTANCE BslJson
Ln == INSTANCE BslLines

SourceFold(v) == v[2]                      \* overrides Bsl's Fold

WithValue == {"ID", "NUM", "STR", "DATE", "LABEL", "DIR"}
TokenAt(l, i) ==
  LET t == l.toks[i] IN
  <<t[1], IF t[1] \in WithValue THEN <<i, IF t[1] = "ID" THEN <<>> \o FoldText(t[2]) ELSE <<>>>> ELSE "">>

(* The language machine has been given ps.n tokens; give it the rest.      *)
RECURSIVE FeedRange(_, _, _, _)
FeedRange(p, l, i, j) ==
  IF i > j \/ p.status # "ok" THEN p
  ELSE IF i = j THEN Step(p, TokenAt(l, i))
  ELSE LET m == (i + j) \div 2 IN FeedRange(FeedRange(p, l, i, m), l, m + 1, j)
Feed(p, l) == FeedRange(p, l, p.n + 1, Len(l.toks))

Front0(text) == LET l == ReadAll(Lex0, text) IN <<l, Feed(Init0, l)>>
Going(l, p) == ~l.err /\ ~l.dc /\ p.status = "ok"

-----------------------------------------------------------------------------
(* How a token of the completion is written.                               *)
Written == [x \in {e[2] : e \in KeywordTable} |-> (CHOOSE e \in KeywordTable : e[2] = x)[1]]
TokText(t) ==
  CASE t[1] = "ID" -> Text("ъЪ_")
    [] t[1] = "NUM" -> Text("0")
    [] t[1] = "LABEL" -> Text("~ъ")
    [] t[1] \in DOMAIN Written -> Written[t[1]]
    [] OTHER -> Text(t[1])

(* <<text, lexer, parser>>: the completion of what has been read.          *)
RECURSIVE Complete(_, _, _)
Complete(tail, l, p) ==
  LET e == EndOfText(l)
      q == Feed(p, e)
  IN IF ~Going(e, q) THEN <<tail, e, q>>
     ELSE LET t == CompTok(q) IN
          IF t = EOF THEN <<tail, e, Step(q, EOF)>>
          ELSE LET c == <<NL>> \o TokText(t)
                   m == ReadAll(l, c)
               IN Complete(tail \o c, m, Feed(p, m))

(* What the text read so far is, by itself: <<outcome, number of the token *)
(* to blame, final state of the language machine, whether nothing that      *)
(* follows can mend it (an open literal aside)>>.                          *)
Outcome(l, p) ==
  LET e == EndOfText(l)
      q == Feed(p, e)
  IN IF e.dc THEN <<"open", 0, q, FALSE>>
     ELSE IF q.status = "syn" THEN <<"syn", q.at, q, TRUE>>
     ELSE IF e.err THEN <<"lex", 0, q, TRUE>>
     ELSE LET f == End(q) IN
          IF f.status # "acc" THEN <<"syn", Len(e.toks), f, FALSE>> ELSE <<"acc", 0, f, FALSE>>

(* Layout: the same tokens written with single spaces between them.        *)
RECURSIVE PlainRange(_, _, _, _)
PlainRange(x, e, i, j) ==
  IF i > j THEN <<>>
  ELSE IF i = j THEN SubSeq(x, e.toks[i][3] + 1, e.toks[i][4]) \o (IF e.toks[i][1] = ";" THEN <<NL>> ELSE <<32>>)
  ELSE LET m == (i + j) \div 2 IN PlainRange(x, e, i, m) \o PlainRange(x, e, m + 1, j)
Plain(x, e) == PlainRange(x, e, 1, Len(e.toks))
SameTokens(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ a[i][2] = b[i][2]

Asked(m) == CASE Ask = "walk" -> Wk!Events(m) [] Ask = "json" -> Js!JsonModule(m) [] Ask = "lines" -> Ln!Lines(m) [] OTHER -> <<>>
Result(p) == LET m == [g |-> SymGlobals(p.stk[1].hd.g), body |-> SymAll(p.stk[1].body)] IN
             [sem |-> p.sem, g |-> m.g, body |-> m.body, x |-> IF p.sem = <<>> THEN Asked(m) ELSE <<>>]
(* The tree has the names and values of the text, in the order of the text; *)
(* and the traversal visits what it should.                                 *)
ValueKinds == {"ID", "NUM", "STR", "DATE", "LABEL"}
TreeOK(l, p) ==
  p.status # "acc" \/ p.sem # <<>> \/
  LET m == [g |-> SymGlobals(p.stk[1].hd.g), body |-> SymAll(p.stk[1].body)]
      v == SelectSeq([i \in 1..Len(l.toks) |-> <<i, l.toks[i][1]>>], LAMBDA t : t[2] \in ValueKinds)
  IN /\ Tr!YieldModule(m) = [i \in 1..Len(v) |-> "#" \o ToString(v[i][1])]
     /\ Tr!CtxOK([g |-> p.stk[1].hd.g, body |-> p.stk[1].body])
     /\ Ask # "lines" \/ Ln!LinesOK(m)
(* toks: the tokens of the text with the completion                        *)
VectorOf(text, tail, l, o, p) ==
  LET v(t) == CASE t[1] = "NUM" -> NumberValue(t[2]) [] t[1] = "DATE" -> DateValue(t[2]) [] OTHER -> <<>>
  IN [text |-> text, tail |-> tail, out |-> o[1], at |-> o[2], dead |-> o[4],
      toks |-> [i \in 1..Len(l.toks) |-> <<l.toks[i][1], l.toks[i][2], l.toks[i][3], l.toks[i][4], l.toks[i][5]>>],
      dc |-> l.dc, err |-> l.err,
      vals |-> [i \in 1..Len(l.toks) |-> v(l.toks[i])],
      self |-> IF o[1] = "acc" THEN <<Result(o[3])>> ELSE <<>>,
      all |-> IF tail # <<>> /\ p.status = "acc" /\ ~l.dc THEN <<Result(p)>> ELSE <<>>]
=============================================================================
