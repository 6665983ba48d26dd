----------------------------- MODULE SourceGen ------------------------------
(* Explorations of the whole front end.                                    *)
EXTENDS Source

CONSTANTS Start,      \* set of texts to begin with
          Pieces,     \* set of texts to go on with
          Groups,     \* random walks: one piece is drawn from each group
          MaxK, MinK, \* pieces; vectors are written from MinK on
          MaxSw,      \* words: how often the letter case may change
          MaxExt,     \* words: how many characters may follow a keyword
          Programs,   \* layouts: sequences of token texts
          MaxDev      \* layouts: how many gaps may differ from a single space

VARIABLES text, lx, ps, k, wd
vars == <<text, lx, ps, k, wd>>
View == <<text, k, wd>>

Begin(s) == /\ text = <<>> \o s
            /\ lx = ReadAll(Lex0, s)
            /\ ps = Feed(Init0, lx)
            /\ k = 0
Append1(c) == /\ Going(lx, ps)
              /\ text' = text \o c
              /\ lx' = ReadAll(lx, c)
              /\ ps' = Feed(ps, lx')

-----------------------------------------------------------------------------
(* 1. Pieces of text.                                                      *)
Init == /\ \E s \in Start : Begin(s)
        /\ wd = <<>>
Draw == {RandomElement(g) : g \in Groups}
Next == /\ k < MaxK
        /\ \E c \in (IF Groups = {} THEN Pieces ELSE Draw) : Append1(c)
        /\ k' = k + 1
        /\ UNCHANGED wd
(* walks that stay grammatical as long as one of the pieces drawn does      *)
NextGood == Next /\ Going(lx', ps')

-----------------------------------------------------------------------------
(* 2. Words: keywords and directives grow letter by letter in either case,  *)
(* and further characters may follow.  wd = <<the word, case changes,        *)
(* characters behind it>>.                                                 *)
AllWords == KeywordWords \cup {<<38>> \o d : d \in DirectiveWords}
Ext == Chars("аЯ_1ёZ. ")
CapitalOf(c) == IF c \in 1072..1103 THEN c - 32 ELSE IF c = 1105 THEN 1025 ELSE IF c \in 97..122 THEN c - 32 ELSE c
IsCap(c) == FoldCh(c) # c
InitW == /\ \E s \in Start : Begin(s)
         /\ wd = <<<<>>, 0, 0>>
Letters == LET f == FoldText(wd[1]) n == Len(wd[1]) IN
           {x[n + 1] : x \in {y \in AllWords : Len(y) > n /\ SubSeq(y, 1, n) = f}}
NextW ==
  \/ /\ wd[3] = 0
     /\ \E a \in Letters : \E c \in {a, CapitalOf(a)} :
          LET sw == IF Len(wd[1]) > 0 /\ FoldCh(wd[1][Len(wd[1])]) # 38 /\ IsCap(c) # IsCap(wd[1][Len(wd[1])]) THEN 1 ELSE 0 IN
          /\ wd[2] + sw <= MaxSw
          /\ Append1(<<c>>)
          /\ wd' = <<Append(wd[1], c), wd[2] + sw, 0>>
          /\ UNCHANGED k
  \/ /\ wd[3] < MaxExt
     /\ Len(wd[1]) > 0
     /\ \E c \in Ext : Append1(<<c>>) /\ wd' = <<wd[1], wd[2], wd[3] + 1>>
     /\ UNCHANGED k

(* words made of keywords and parts of keywords, one after another          *)
Parts == KeywordWords \cup DirectiveWords \cup {Text("конец"), Text("каждого"), Text("иначе"), Text("а"), Text("_"), Text("1")}
NextM == /\ k < MaxK
         /\ \E x \in Parts : \E y \in {x, [i \in 1..Len(x) |-> CapitalOf(x[i])]} : Append1(y)
         /\ k' = k + 1
         /\ UNCHANGED wd

-----------------------------------------------------------------------------
(* 3. Layouts: the tokens of a program with every gap, at most MaxDev of    *)
(* them unusual.  wd = <<program, deviations>>, k = tokens written.         *)
InitL == /\ \E p \in Programs : wd = <<p, 0>>
         /\ Begin(<<>>)
NextL == /\ k < Len(wd[1])
         /\ \E g \in Pieces :
              /\ (IF g = <<32>> THEN wd[2] ELSE wd[2] + 1) <= MaxDev
              /\ Append1(g \o wd[1][k + 1])
              /\ wd' = <<wd[1], IF g = <<32>> THEN wd[2] ELSE wd[2] + 1>>
         /\ k' = k + 1
(* random gaps everywhere                                                  *)
NextR == /\ k < Len(wd[1])
         /\ \E g \in {RandomElement(Pieces)} : Append1(g \o wd[1][k + 1])
         /\ k' = k + 1
         /\ UNCHANGED wd
Whole == k = Len(wd[1])

-----------------------------------------------------------------------------
(* 4. Walks: phrases of tokens, written in random spellings with random    *)
(* gaps.  wd = the keyword spellings do not matter for anything.           *)
CONSTANTS Gaps,       \* between tokens that need a gap or not
          Names, Nums, Strs, Dates, Labels, Dirs
Tight == {"(", ")", ",", ";", "[", "]", ":", "="}
Zigzag(x) == [i \in 1..Len(x) |-> IF i % 2 = 0 THEN CapitalOf(x[i]) ELSE x[i]]
Upper(x) == [i \in 1..Len(x) |-> CapitalOf(x[i])]
Spell(x) == LET r == RandomElement(1..5) IN
            <<>> \o (CASE r = 1 -> x [] r = 2 -> Upper(x) [] r = 3 -> Zigzag(x) [] OTHER -> <<CapitalOf(x[1])>> \o Tail(x))
SpellTok(t) ==
  CASE t[1] = "ID" -> RandomElement(Names)
    [] t[1] = "NUM" -> RandomElement(Nums)
    [] t[1] = "STR" -> RandomElement(Strs)
    [] t[1] = "DATE" -> RandomElement(Dates)
    [] t[1] = "LABEL" -> RandomElement(Labels)
    [] t[1] = "DIR" -> RandomElement(Dirs)
    [] t[1] \in DOMAIN Written -> Spell(Written[t[1]])
    [] OTHER -> Text(t[1])
GapAt(a, b) == IF (a \in Tight \/ b \in Tight) /\ RandomElement(1..3) > 1 THEN <<>>
               ELSE IF RandomElement(1..4) > 1 THEN <<32>> ELSE RandomElement(Gaps)
RECURSIVE Wording(_, _, _)
Wording(ph, i, prev) == IF i > Len(ph) THEN <<>>
                        ELSE GapAt(prev, ph[i][1]) \o SpellTok(ph[i]) \o Wording(ph, i + 1, ph[i][1])
LastKind == IF lx.toks = <<>> THEN "" ELSE lx.toks[Len(lx.toks)][1]
NextP == /\ k < MaxK
         /\ \E ph \in Draw : \E x \in {(IF lx.mode = "gap" /\ k > 0 THEN <<>> ELSE <<32>>) \o Wording(ph, 1, LastKind)} : Append1(x)
         /\ Going(lx', ps') /\ (ps'.sem = <<>> \/ k > 20)
         /\ k' = k + 1
         /\ UNCHANGED wd
(* at the end something that need not fit                                  *)
NextBad == \/ NextP
           \/ /\ k > 0 /\ k <= MaxK /\ RandomElement(1..6) = 1
              /\ \E x \in {RandomElement(Pieces)} : Append1(<<32>> \o x)
              /\ k' = MaxK + 1
              /\ UNCHANGED wd

-----------------------------------------------------------------------------
Failed(what) == PrintT("violated: " \o what) /\ FALSE

Judge(emit) ==
  LET c == Complete(<<>>, lx, ps)
      o == Outcome(lx, ps)
      x == text \o c[1]
      l == c[2]
      p == c[3]
      y == Plain(x, l)
      m == Front0(y)
      n == EndOfText(m[1])
  IN /\ ~Going(EndOfText(lx), Feed(ps, EndOfText(lx))) \/ p.status = "acc" \/ l.dc \/ Failed("Completable")
     /\ c[1] # <<>> \/ p.status # "acc" \/ o[1] \in {"acc", "open"} \/ Failed("What needs nothing is complete")
     /\ l.err \/ l.dc \/ (~n.err /\ SameTokens(n.toks, l.toks)) \/ Failed("Layout")
     /\ ~emit \/ l.dc \/ l.err \/ TreeOK(l, p) \/ Failed("Tree")
     /\ ~emit \/ PrintT(ToJson(VectorOf(text, c[1], l, o, p)))

-----------------------------------------------------------------------------
(* 5. Texts with a small change somewhere: at a character, at a token, at a *)
(* gap.  The machines read the changed text anew.                          *)
Say(y) ==
  LET f == Front0(y)
      e == EndOfText(f[1])
      o == Outcome(f[1], f[2])
      n == EndOfText(ReadAll(Lex0, Plain(y, e)))
  IN /\ e.err \/ e.dc \/ (~n.err /\ SameTokens(n.toks, e.toks)) \/ Failed("Layout")
     /\ o[1] # "acc" \/ TreeOK(e, o[3]) \/ Failed("Tree")
     /\ PrintT(ToJson(VectorOf(y, <<>>, e, o, o[3])))
CutOut(x, a, b) == SubSeq(x, 1, a) \o SubSeq(x, b + 1, Len(x))          \* without the characters a+1..b
PutIn(x, a, s) == SubSeq(x, 1, a) \o s \o SubSeq(x, a + 1, Len(x))      \* s behind the character a
EditChars == {<<c>> : c \in Chars(" ;.,()[]=<>+-*/%?:~&#|'_@1aЖ\"\n\t\r")} \cup {Text("//"), Text("\r\n"), Text("И"), Text("Не"), Text("\n|")}
Changed(x, t, r, i, j, u, p, c) ==
  LET b(z) == t[z][3] e(z) == t[z][4] txt(z) == SubSeq(x, t[z][3] + 1, t[z][4]) IN
  CASE r = 1 -> CutOut(x, i - 1, i)
    [] r = 2 -> PutIn(x, i, <<x[i]>>)
    [] r = 3 -> IF i = Len(x) THEN CutOut(x, i - 1, i) ELSE PutIn(CutOut(x, i - 1, i), i, <<x[i]>>)
    [] r = 4 -> PutIn(x, i, c)
    [] r = 5 -> PutIn(CutOut(x, i - 1, i), i - 1, c)
    [] r = 6 -> CutOut(x, i - 1, IF i + (u % 9) > Len(x) THEN Len(x) ELSE i + (u % 9))
    [] r = 7 -> CutOut(x, b(j), e(j))
    [] r = 8 -> PutIn(x, e(j), <<32>> \o txt(j))
    [] r = 9 -> PutIn(x, b(j), txt(u) \o <<32>>)
    [] r = 10 -> PutIn(x, b(j), p \o <<32>>)
    [] r = 11 -> PutIn(CutOut(x, b(j), e(j)), b(j), p)
    [] r = 12 -> PutIn(CutOut(x, b(j), e(j)), b(j), txt(u))
    [] r = 13 -> IF j = 1 THEN CutOut(x, 0, b(1)) ELSE CutOut(x, e(j - 1), b(j))
    [] r = 14 -> PutIn(x, b(j), c)
    [] r = 15 -> SubSeq(x, 1, e(j))
    [] r = 16 -> PutIn(x, e(j), <<59>>)
RECURSIVE Changes(_, _, _)
Changes(x, t, n) ==
  n = 0 \/ Len(t) = 0 \/
    /\ \A r \in {RandomElement(1..16)} : \A i \in {RandomElement(1..Len(x))} : \A j \in {RandomElement(1..Len(t))} :
       \A u \in {RandomElement(1..Len(t))} : \A p \in {RandomElement(Pieces)} : \A c \in {RandomElement(EditChars)} :
         \A y \in {Changed(x, t, r, i, j, u, p, c)} : Len(y) = 0 \/ Say(y)
    /\ Changes(x, t, n - 1)
GoodX == LET c == Complete(<<>>, lx, ps) IN k < MinK \/ k % 2 # 0 \/ c[2].err \/ c[2].dc \/ Changes(text \o c[1], c[2].toks, MaxDev)

Good == Judge(k >= MinK)
GoodW == Judge(Len(wd[1]) > 0)
GoodL == Judge(k >= MinK)
GoodR == Judge(Whole \/ k % 5 = 4)
=============================================================================
