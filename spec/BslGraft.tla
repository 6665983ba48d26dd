------------------------------ MODULE BslGraft ------------------------------
(***************************************************************************)
(* Trees changed by hand: a statement of a block or an argument of a call, *)
(* reached by the traversal, gives way to a statement or an expression     *)
(* from another place.  The result is a tree like any other: it has a      *)
(* printed form, a JSON form and a traversal of its own, and where the     *)
(* context rules hold in it, its printed form is a program with that tree. *)
(***************************************************************************)
EXTENDS BslWalk, BslJson, BslLines, TLC

(* What is at a path: a node, or <<"list", nodes>> for a block.             *)
Block(b) == <<"list", b>>
Child(n, j) ==
  CASE n[1] = "list" -> n[2][j]
    [] n[1] = "br" -> IF j = 1 THEN n[2] ELSE Block(n[3])
    [] n[1] = "if" -> IF j <= Len(n[2]) THEN <<"br", n[2][j][1], n[2][j][2]>> ELSE Block(n[3])
    [] n[1] \in {"foreach", "while"} -> IF j = 2 THEN Block(Last(n)) ELSE n[2]
    [] n[1] = "for" -> IF j = 3 THEN Block(n[4]) ELSE n[j + 1]
    [] n[1] = "try" -> Block(n[j + 1])
    [] n[1] = "func" -> Block(n[8])
    [] n[1] = "call" -> Args(n[3])[j]
    [] n[1] = "bin" -> n[j + 2]
    [] OTHER -> n[j + 1]                          \* tern, return, neg, not
RECURSIVE Get(_, _)
Get(n, p) == IF p = <<>> THEN n ELSE Get(Child(n, Head(p)), Tail(p))

RECURSIVE Put(_, _, _)
Put(n, p, x) ==
  IF p = <<>> THEN x
  ELSE LET j == Head(p)
           c == Put(Child(n, j), Tail(p), x)
       IN CASE n[1] = "list" -> <<"list", [n[2] EXCEPT ![j] = c]>>
            [] n[1] = "br" -> IF j = 1 THEN <<"br", c, n[3]>> ELSE <<"br", n[2], c[2]>>
            [] n[1] = "if" -> IF j <= Len(n[2]) THEN <<"if", [n[2] EXCEPT ![j] = <<c[2], c[3]>>], n[3]>> ELSE <<"if", n[2], c[2]>>
            [] n[1] \in {"foreach", "while"} -> [n EXCEPT ![Len(n)] = c[2]]
            [] n[1] = "for" -> IF j = 3 THEN [n EXCEPT ![4] = c[2]] ELSE [n EXCEPT ![j + 1] = c]
            [] n[1] = "try" -> [n EXCEPT ![j + 1] = c[2]]
            [] n[1] = "func" -> [n EXCEPT ![8] = c[2]]
            [] n[1] = "call" -> [n EXCEPT ![3] = [Args(@) EXCEPT ![j] = c]]
            [] n[1] = "bin" -> [n EXCEPT ![j + 2] = c]
            [] OTHER -> [n EXCEPT ![j + 1] = c]

(* The places that can be changed.                                         *)
Root(m) == Block(m.body)
Slots(m) == LET e == SelectSeq(Events(m), LAMBDA x : x[1]) IN [i \in 1..Len(e) |-> e[i][2]]
InBlock(m, p) == Get(Root(m), SubSeq(p, 1, Len(p) - 1))[1] = "list"
IsBranch(m, p) == Get(Root(m), p)[1] = "br"

(* What may stand where.                                                   *)
Expression == {"call", "chain", "var", "idx", "bin", "tern", "par", "neg", "not", "new"}
Fits(m, p, x, fromBlock) ==
  IF InBlock(m, p) THEN (IF fromBlock THEN (x[1] = "func") = (Get(Root(m), p)[1] = "func") ELSE x[1] = "call")
  ELSE ~fromBlock \/ x[1] \in Expression

(* One change of m by something from s (number j of its places, 0 for any):  *)
(* <<place, origin, result>>, or <<>>.                                      *)
Graft(m, s, from) ==
  LET a == Slots(m)
      b == Slots(s)
  IN IF a = <<>> THEN <<>>
     ELSE CHOOSE r \in {LET p == a[i]
                            q == b[j]
                            x == Get(Root(s), q)
                        IN IF IsBranch(m, p) \/ IsBranch(s, q) \/ ~Fits(m, p, x, InBlock(s, q)) THEN <<>>
                           ELSE <<p, q, [m EXCEPT !.body = Put(Root(m), p, x)[2]]>> :
                          i \in {RandomElement(1..Len(a))}, j \in {IF from = 0 THEN RandomElement(1..Len(b)) ELSE from}} : TRUE

RECURSIVE Grafts(_, _, _, _, _)
Grafts(m, s, es, n, from) ==
  IF n = 0 THEN <<es, m>>
  ELSE LET r == Graft(m, s, from) IN
       IF r = <<>> THEN Grafts(m, s, es, n - 1, from) ELSE Grafts(r[3], s, Append(es, <<r[1], r[2]>>), n - 1, from)

(* A changed tree with everything there is to say of it.                   *)
Said(g) == [e |-> g[1], ok |-> CtxOK(g[2]), body |-> g[2].body,
            walk |-> Events(g[2]), json |-> JsonModule(g[2]), lines |-> Lines(g[2])]
(* The last one puts one and the same thing at several places.              *)
Changed(m) ==
  LET n == Len(Slots(m)) IN
  <<Said(Grafts(m, m, <<>>, 1, 0)), Said(Grafts(m, m, <<>>, 5, 0))>>
  \o (IF n < 2 THEN <<>> ELSE CHOOSE x \in {<<Said(Grafts(m, m, <<>>, 5, from))>> : from \in {RandomElement(1..n)}} : TRUE)
GraftsOK(c) == \A i \in 1..Len(c) :
  LET m == [g |-> <<>>, body |-> c[i].body] IN
  /\ WalkOK(m)
  /\ c[i].ok => LET r == End(Run(Init0, PrintModule(m))) IN
                  r.status = "acc" /\ r.sem = <<>> /\ NormModule(Module(r)) = NormModule(m)
=============================================================================
