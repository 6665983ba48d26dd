------------------------------ MODULE BslWalk ------------------------------
(***************************************************************************)
(* The traversal of a tree: which nodes Walk visits, who owns them, what   *)
(* directly contains them.                                                 *)
(*                                                                         *)
(* A node is addressed by its path from the module body.  The children of  *)
(* a node are numbered: if -> branches, then the else body; branch ->      *)
(* condition, body; try -> body, handler; func -> parameters, locals,      *)
(* body; loops -> header expressions, body; call -> arguments; operation   *)
(* -> left, right; ternary -> its parts; return, sign, НЕ -> operand.      *)
(*                                                                         *)
(* An event is <<slot, path, owner, parent>>: slot tells whether the node  *)
(* sits in a place of the tree that can be replaced through the visit (a   *)
(* statement of a block, an argument of a call); owner and parent are      *)
(* paths, empty for none / the module.                                     *)
(***************************************************************************)
EXTENDS BslTree

RECURSIVE Visit(_, _, _, _, _, _)
VisitBody(b, path, owner, par) == Cat([i \in 1..Len(b) |-> Visit(b[i], Append(path, i), owner, par, TRUE, Append(path, i))])
VisitIn(n, path, owner, par) == Visit(n, path, owner, par, FALSE, path)

(* Everything inside node n (at path; the visited node is at self, which   *)
(* is path unless n stands under a sign).                                  *)
RECURSIVE Inside(_, _, _, _)
Inside(n, path, owner, self) ==
  CASE n[1] \in {"neg", "not"} -> Inside(n[2], Append(path, 1), owner, self)
    [] n[1] = "if" ->
         Cat([j \in 1..Len(n[2]) |->
                LET own == IF j = 1 THEN self ELSE Append(path, j) IN
                VisitIn(n[2][j][1], path \o <<j, 1>>, owner, own)
                \o VisitBody(n[2][j][2], path \o <<j, 2>>, owner, own)
                \o (IF j = 1 THEN <<>> ELSE <<<<TRUE, own, owner, self>>>>)])
         \o VisitBody(n[3], Append(path, Len(n[2]) + 1), owner, self)
    [] n[1] \in {"foreach", "while"} -> VisitBody(Last(n), Append(path, 2), owner, self)
    [] n[1] = "for" -> VisitBody(n[4], Append(path, 3), owner, self)
    [] n[1] = "try" -> VisitBody(n[2], Append(path, 1), owner, self) \o VisitBody(n[3], Append(path, 2), owner, self)
    [] n[1] = "func" -> VisitBody(n[8], Append(path, 3), path, self)
    [] n[1] = "call" -> VisitBody(Args(n[3]), path, owner, self)
    [] n[1] = "bin" -> VisitIn(n[3], Append(path, 1), owner, self) \o VisitIn(n[4], Append(path, 2), owner, self)
    [] n[1] = "tern" -> Cat([j \in 1..3 |-> VisitIn(n[j+1], Append(path, j), owner, self)])
    [] n[1] = "return" -> VisitIn(n[2], Append(path, 1), owner, self)
    [] OTHER -> <<>>

(* A gap among the arguments is no statement and is not counted.           *)
Visit(n, path, owner, par, slot, self) ==
  IF n = Nil THEN <<>>
  ELSE Inside(n, path, owner, self) \o <<<<slot, path, IF n[1] = "func" THEN path ELSE owner, par>>>>

Events(m) == VisitBody(m.body, <<>>, <<>>, <<>>)

-----------------------------------------------------------------------------
(* Statements of blocks, counted directly on the tree.                     *)
RECURSIVE Count(_), CountAll(_), CountBr(_)
CountAll(b) == IF b = <<>> THEN 0 ELSE Count(Head(b)) + CountAll(Tail(b))
CountBr(br) == IF br = <<>> THEN 0 ELSE CountAll(Head(br)[2]) + CountBr(Tail(br))
Count(n) == 1 +
  (CASE n[1] = "if" -> CountBr(n[2]) + CountAll(n[3])
     [] n[1] \in {"foreach", "for", "while"} -> CountAll(Last(n))
     [] n[1] = "try" -> CountAll(n[2]) + CountAll(n[3])
     [] n[1] = "func" -> CountAll(n[8])
     [] OTHER -> 0)

(* The traversal visits no place twice, sees every statement of every      *)
(* block, and comes to a node only after everything inside it.             *)
Within(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
WalkOK(m) ==
  LET e == Events(m) IN
  /\ \A i, j \in 1..Len(e) : i # j => e[i][2] # e[j][2]
  /\ \A i, j \in 1..Len(e) : Within(e[i][2], e[j][2]) => j < i
  /\ Len(SelectSeq(e, LAMBDA x : x[1])) >= CountAll(m.body)
=============================================================================
