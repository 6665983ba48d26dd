------------------------------- MODULE BslGen -------------------------------
(***************************************************************************)
(* Exploration of the language machine of Bsl: programs grow phrase by     *)
(* phrase, the invariant Good is checked in every state, and every      *)
(* state is written out as a test vector for the real parser (the program  *)
(* completed by the machine's own completion, the tree it must give, the   *)
(* context errors it must give, and every token that cannot come next).    *)
(*                                                                         *)
(* A profile (Profiles.tla) chooses the phrases and the start; with TLC's  *)
(* breadth-first search the exploration is exhaustive up to MaxK phrases,  *)
(* with -simulate it takes long random paths.                              *)
(***************************************************************************)
EXTENDS Bsl, BslTree, BslWalk, BslJson, BslLines, BslEdit, BslGraft, Json, TLC

CONSTANTS Phrases,    \* set of token sequences
          Groups,     \* random walks: one candidate phrase is drawn from each group (empty: from Phrases, all)
          Start,      \* set of token sequences
          MaxK,       \* number of phrases
          MinK,       \* vectors are written from this many phrases on
          WithBad,    \* also list the tokens that cannot come next
          ErrPhr,     \* follow phrases that break a context rule
          AfterErr,   \* and go on behind them
          Reps,       \* a phrase may come this many times at once
          Width,      \* random walks: so many candidates are drawn (0: all)
          Extra       \* further predictions to write into the vectors

VARIABLES st, toks, k
vars == <<st, toks, k>>

-----------------------------------------------------------------------------
(* "#" stands for a fresh name: the position of the token makes every name *)
(* of a program different, so that no two subtrees can be confused.        *)
Fresh(t, i) ==
  IF Vl(t) # "#" THEN t
  ELSE <<Kd(t), CASE Kd(t) = "ID" -> "n" \o ToString(i)
                  [] Kd(t) = "NUM" -> ToString(i)
                  [] Kd(t) = "STR" -> "s" \o ToString(i)
                  [] Kd(t) = "DATE" -> "d" \o ToString(i)
                  [] Kd(t) = "LABEL" -> "m" \o ToString(i)>>

Inst(ph, n) == [i \in 1..Len(ph) |-> Fresh(ph[i], n + i)]

LastTok == IF toks = <<>> THEN <<"", "">> ELSE Last(toks)

Init == /\ toks \in {Inst(s, 0) : s \in Start}
        /\ st = Run(Init0, toks)
        /\ k = 0

Times(ph, n) == [i \in 1..(n * Len(ph)) |-> ph[((i - 1) % Len(ph)) + 1]]

Grow(ph, n) ==
  LET p == Inst(Times(ph, n), Len(toks))
      s == Run(st, p)
  IN /\ k < MaxK
     /\ n = 1 \/ (Len(toks) < 1500 /\ ~Glue(ph[Len(ph)], ph[1]))
     /\ ~Glue(LastTok, p[1])
     /\ s.status = "ok"
     /\ (s.sem = <<>> \/ (ErrPhr /\ (AfterErr \/ st.sem = <<>>)))
     /\ st' = s
     /\ toks' = toks \o p
     /\ k' = k + 1

(* Random walks draw their candidates, which keeps a step cheap however     *)
(* many phrases there are and gives every group the same weight.           *)
Draw == {RandomElement(g) : g \in Groups}
Next ==
  IF Width > 0 /\ Reps = {} THEN
    \E i \in 1..Width : \E ph \in {IF Groups = {} THEN RandomElement(Phrases) ELSE RandomElement(RandomElement(Groups))} : Grow(ph, 1)
  ELSE IF Reps = {} THEN \E ph \in (IF Groups = {} THEN Phrases ELSE Draw) : Grow(ph, 1)
  ELSE IF Groups = {} THEN \E ph \in Phrases, n \in Reps : Grow(ph, n)
  ELSE \E i \in 1..4 : \E ph \in {RandomElement(RandomElement(Groups))}, n \in {RandomElement(Reps)} : Grow(ph, n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design, checked in every reachable state.             *)

Comp == Completion(st)
Failed(what) == PrintT("violated: " \o what) /\ FALSE

(* Every viable prefix can be completed to a module.                       *)
CompletableIn(c) == c[2].status = "acc"

(* The tree holds every name and literal of the text exactly once and in   *)
(* the order of the text (nothing lost, duplicated or moved).              *)
OrderKeptIn(c, m) == YieldModule(m) = TokNames(toks \o c[1])

(* The context rules, restated on the tree.  (The colon rule and "module    *)
(* variables first" are rules of the text and leave no trace in the tree.) *)
SemKinds(s) == {s[i][1] : i \in 1..Len(s)}
ContextRulesIn(c, m) ==
  LET sk == SemKinds(c[2].sem)
  IN "gvpos" \in sk \/ (sk \subseteq {"colon"} <=> CtxOK(m))

(* Printing the tree as tokens and reading it again gives the same tree.   *)
RoundTripIn(m) ==
  LET r == End(Run(Init0, PrintModule(m))) IN
    r.status = "acc" /\ r.sem = <<>> /\ NormModule(Module(r)) = NormModule(m)

-----------------------------------------------------------------------------
(* Vectors.                                                                *)

Bad == {Kd(t) : t \in {a \in Alphabet : ~Glue(LastTok, a) /\ Step(st, a).status = "syn"}}

(* What would break a context rule here.                                   *)
Forbidden ==
  LET next(ph) == LET p == Inst(ph, Len(toks)) IN <<p, Run(st, p)>>
      cand == {next(ph) : ph \in {x \in Phrases : ~Glue(LastTok, x[1])}}
  IN {LET f == Completion(c[2]) IN [p |-> c[1], c |-> f[1], sem |-> f[2].sem] :
        c \in {d \in cand : d[2].status = "ok" /\ d[2].sem # <<>>}}

(* The completed program with a small change.                              *)
Edits(c) == LET p == toks \o c[1] n == Len(p) IN IF n < 2 THEN {} ELSE EditsOf(p, k + n, 1 + (n \div 20))
(* Of the well-formed ones, with a further prediction.                     *)
With(es, X(_)) == LET s == SetToSeq({u \in es : u.s = "acc" /\ u.sem = <<>>}) IN
  [i \in 1..Len(s) |-> [s[i] EXCEPT !.x = X([g |-> s[i].g, body |-> s[i].body])]]

More(c, m) ==
  CASE Extra = "" -> <<>>
    [] Extra = "walk" -> Events(m)
    [] Extra = "json" -> JsonModule(m)
    [] Extra = "lines" -> Lines(m)
    [] Extra = "err" -> Forbidden
    [] Extra = "graft" -> Changed(m)
    [] Extra = "edit" -> Edits(c)
    [] Extra = "edit walk" -> With(Edits(c), Events)
    [] Extra = "edit json" -> With(Edits(c), JsonModule)
    [] Extra = "edit lines" -> With(Edits(c), Lines)

(* The properties of the further predictions.                              *)
ExtraIn(m) ==
  CASE Extra = "walk" -> WalkOK(m)
    [] Extra = "lines" -> LinesOK(m)
    [] OTHER -> TRUE

VectorOf(c, m, clean, more) ==
  [t |-> toks, c |-> c[1], sem |-> c[2].sem, g |-> m.g, body |-> m.body,
   bad |-> IF WithBad /\ st.sem = <<>> THEN Bad ELSE {},
   x |-> more]

(* The completion and the tree are computed once per state.                *)
Good ==
  LET c == Comp
      m == Module(c[2])
      clean == c[2].sem = <<>>
      say(more) ==
        /\ (clean /\ Extra = "graft") => (GraftsOK(more) \/ Failed("Grafts"))
        /\ PrintT(ToJson(VectorOf(c, m, clean, more)))
  IN /\ CompletableIn(c) \/ Failed("Completable")
     /\ clean => (OrderKeptIn(c, m) \/ Failed("OrderKept"))
     /\ (ContextRulesIn(c, m) \/ Failed("ContextRules"))
     /\ (clean /\ (MaxK < 13 \/ k % 6 = 0)) => (RoundTripIn(m) \/ Failed("RoundTrip"))
     /\ clean => (ExtraIn(m) \/ Failed("Extra"))
     /\ k < MinK \/ \A more \in {IF clean THEN More(c, m) ELSE <<>>} : say(more)
=============================================================================
