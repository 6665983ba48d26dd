-------------------------------- MODULE Pump --------------------------------
(***************************************************************************)
(* Repetition: which phrases may be repeated without end after which       *)
(* beginnings, and how the machine closes what n repetitions have opened.  *)
(* The invariant Pumping says that n+1 repetitions are closed like n with  *)
(* one more constant piece in front; the harness uses it to build programs *)
(* of any depth and length whose acceptance the specification has decided. *)
(***************************************************************************)
EXTENDS Profiles

VARIABLE ph
pvars == <<st, toks, k, ph>>

(* the glue rule keeps string literals apart *)
Plain(s) == [i \in 1..Len(s) |-> Fresh(s[i], 1)]

PInit == \E s \in Start, p \in Phrases :
  /\ toks = Plain(s)
  /\ ph = Plain(p)
  /\ st = Run(Init0, Plain(s))
  /\ k = 0
  /\ ~Glue(Last(ph), ph[1])
  /\ GlueFree(toks \o ph)
  /\ LET e == Run(st, Times(ph, 3)) IN e.status = "ok" /\ e.sem = <<>>

(* one more repetition *)
PNext == /\ k < MaxK
         /\ k' = k + 1
         /\ st' = Run(st, ph)
         /\ UNCHANGED <<toks, ph>>

C(i) == Completion(Run(Run(Init0, toks), Times(ph, i)))

Closed(i) == C(i)[2].status = "acc" /\ C(i)[2].sem = <<>>
C1 == C(1)[1]
C2 == C(2)[1]
RECURSIVE Common(_, _, _)
Common(a, b, i) == IF i < Len(a) /\ i < Len(b) /\ a[i + 1] = b[i + 1] THEN Common(a, b, i + 1) ELSE i
(* C1 = Front \o Back, C2 = Front \o Piece \o Back                          *)
Split(c1, c2) ==
  LET f == Common(c1, c2, 0) m == Len(c2) - Len(c1) IN
  [a |-> SubSeq(c1, 1, f), x |-> SubSeq(c2, f + 1, f + m), d |-> SubSeq(c1, f + 1, Len(c1))]
Pumping ==
  k < 2 \/ LET c == Completion(st) y == Split(C1, C2) IN
    (c[2].status = "acc" /\ c[1] = y.a \o Times(y.x, k - 1) \o y.d) \/ Failed("Pumping")
PGood ==
  /\ Pumping
  /\ k = 1 => LET y == Split(C1, C2) IN
       PrintT(ToJson([s |-> toks, p |-> ph, a |-> y.a, x |-> y.x, d |-> y.d, ok |-> Closed(1) /\ Closed(2) /\ Closed(3)]))

=============================================================================
