-------------------------------- MODULE Iso ---------------------------------
(***************************************************************************)
(* Several parser objects in use at the same time.  Each object has a text *)
(* and is taken through the operations of Script; parsing takes a step for *)
(* every token it reads, walking a step for each of the first callbacks.   *)
(* The objects take their steps in any order; at most MaxSw times an       *)
(* object is left before it has finished.                                  *)
(*                                                                         *)
(* The state of an object is a language machine of its own: what an        *)
(* operation gives is a function of the text of its object (Alone), in     *)
(* every interleaving, and no step changes the state of another object.    *)
(***************************************************************************)
EXTENDS Source

CONSTANTS N,           \* objects
          Catalogue,   \* texts
          Picks,       \* which text each object gets (random: seeds)
          Script,      \* what is done with an object that has been parsed
          MaxSw

VARIABLES pick, obj, cur, sw, sched
vars == <<pick, obj, cur, sw, sched>>

-----------------------------------------------------------------------------
(* A text alone.                                                           *)
Lexed == <<>> \o [t \in 1..Len(Catalogue) |-> LexAll(Catalogue[t])]
Token(t, n) == TokenAt(Lexed[t], n)
Tokens(t) == Len(Lexed[t].toks)
(* the token behind the last one ends the text, or cannot be read           *)
AtEnd(t, p) == IF Lexed[t].err THEN [p EXCEPT !.status = "lex"] ELSE End(p)
Advance(t, n, p) == IF n > Tokens(t) THEN AtEnd(t, p) ELSE Step(p, Token(t, n))
RECURSIVE Alone(_, _)
Alone(t, n) == IF n = 0 THEN Init0
               ELSE CHOOSE q \in {IF p.status # "ok" THEN p ELSE Advance(t, n, p) : p \in {Alone(t, n - 1)}} : TRUE   \* (evaluates p once)
AloneTable == <<>> \o [t \in 1..Len(Catalogue) |-> <<>> \o [n \in 1..Tokens(t) + 1 |-> Alone(t, n)]]
Verdict(p) == IF p.status # "acc" THEN p.status ELSE IF p.sem # <<>> THEN "ctx" ELSE "acc"

-----------------------------------------------------------------------------
(* pc: new | parse | operation of the script (a number) | done             *)
Idle == [pc |-> "new", op |-> 0, n |-> 0, p |-> Init0]
Done(i) == obj[i].pc = "done"
AllDone == \A i \in 1..N : Done(i)

AfterParse(o, p) == IF p.status = "ok" THEN [o EXCEPT !.n = @ + 1, !.p = p]
                    ELSE IF Verdict(p) = "acc" /\ Script # <<>> THEN [o EXCEPT !.n = @ + 1, !.p = p, !.pc = "script", !.op = 1]
                    ELSE [o EXCEPT !.n = @ + 1, !.p = p, !.pc = "done"]
Act(i) ==
  LET o == obj[i] t == pick[i] IN
  CASE o.pc = "new" -> [o EXCEPT !.pc = "parse"]
    [] o.pc = "parse" -> CHOOSE r \in {AfterParse(o, p) : p \in {Advance(t, o.n + 1, o.p)}} : TRUE    \* (evaluates the step once)
    [] o.pc = "script" -> IF o.op = Len(Script) THEN [o EXCEPT !.pc = "done"] ELSE [o EXCEPT !.op = @ + 1]

Init == /\ pick \in {<<>> \o p : p \in Picks}
        /\ obj = <<>> \o [i \in 1..N |-> Idle]    \* (a tuple, not a function to be evaluated again and again)
        /\ cur = 1 /\ sw = 0 /\ sched = <<>>
Turn(i) ==
  /\ obj' = [obj EXCEPT ![i] = Act(i)]
  /\ cur' = i
  /\ sw' = IF i # cur /\ ~Done(cur) /\ sw < MaxSw THEN sw + 1 ELSE sw
  /\ sched' = IF sched # <<>> /\ sched[Len(sched)][1] = i
              THEN [sched EXCEPT ![Len(sched)] = <<i, @[2] + 1>>] ELSE Append(sched, <<i, 1>>)
  /\ UNCHANGED pick
Next == \E i \in 1..N : ~Done(i) /\ (i = cur \/ Done(cur) \/ sw < MaxSw) /\ Turn(i)
(* one pseudo-random schedule for every initial state; sw is the generator   *)
(* (RandomElement would make TLC evaluate every LET again at each use)       *)
Mix(x) == ((x * 16807) + 11) % 65537
Alive == SelectSeq([j \in 1..N |-> j], LAMBDA j : ~Done(j))
NextRandom ==
  /\ ~AllDone
  /\ \E i \in {Alive[1 + ((sw % 251) % Len(Alive))]} :
       /\ obj' = [obj EXCEPT ![i] = Act(i)]
       /\ cur' = i
       /\ sched' = IF sched # <<>> /\ sched[Len(sched)][1] = i
                   THEN [sched EXCEPT ![Len(sched)] = <<i, @[2] + 1>>] ELSE Append(sched, <<i, 1>>)
  /\ sw' = Mix(sw)
  /\ UNCHANGED pick
InitRandom == /\ \E s \in Picks : sw = Mix(Mix(s)) /\ pick = <<>> \o [i \in 1..N |-> 1 + ((Mix(Mix((s * 5) + i)) % 251) % Len(Catalogue))]
              /\ obj = <<>> \o [i \in 1..N |-> Idle]
              /\ cur = 1 /\ sched = <<>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Failed(what) == PrintT("violated: " \o what) /\ FALSE
(* what has been read of a text alone decides the state of its parser      *)
Independent == \A i \in 1..N : obj[i].n = 0 \/ obj[i].p = AloneTable[pick[i]][obj[i].n]
(* a step belongs to one object                                            *)
OneAtATime == [][\E i \in 1..N : \A j \in 1..N \ {i} : obj'[j] = obj[j]]_vars
(* two objects' steps commute                                              *)
Commute == \A i, j \in 1..N : i # j /\ ~Done(i) /\ ~Done(j) =>
             LET a == [obj EXCEPT ![i] = Act(i)] b == [obj EXCEPT ![j] = Act(j)]
             IN a[j] = obj[j] /\ b[i] = obj[i] /\ [a EXCEPT ![j] = b[j]] = [b EXCEPT ![i] = a[i]]
Good ==
  /\ Independent \/ Failed("Independent")
  /\ Commute \/ Failed("Commute")
  /\ ~AllDone \/ PrintT(ToJson([texts |-> [i \in 1..N |-> Catalogue[pick[i]]], sched |-> sched, script |-> Script, reads |-> [i \in 1..N |-> obj[i].n],
                                verdict |-> [i \in 1..N |-> Verdict(obj[i].p)]]))
=============================================================================
