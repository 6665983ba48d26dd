------------------------------ MODULE BslJson ------------------------------
(***************************************************************************)
(* The JSON form of a module.  Leaves carry symbols: "i:" a name, "s:" the *)
(* text of a string, "n:" a number with its sign, "t:" a date, "l:" a      *)
(* label, "d:" a directive.  "$null" and "$empty" stand for null and {};   *)
(* <<"$map", ...>> for an object whose keys are names.                     *)
(***************************************************************************)
EXTENDS BslTree

OpCode(o) ==
  CASE o = "+" -> 1 [] o = "-" -> 2 [] o = "*" -> 3 [] o = "/" -> 4 [] o = "=" -> 5 [] o = ">" -> 6 [] o = "<" -> 7
    [] o = "<>" -> 8 [] o = "<=" -> 9 [] o = ">=" -> 10 [] o = "%" -> 11 [] o = "Or" -> 12 [] o = "And" -> 13

Flags(neg, nt) == CASE neg /\ nt -> [UnaryMinus |-> TRUE, Not |-> TRUE]
                    [] neg /\ ~nt -> [UnaryMinus |-> TRUE]
                    [] ~neg /\ nt -> [Not |-> TRUE]
                    [] OTHER -> <<>>
I(x) == "i:" \o x
OptI(x) == IF x = "" THEN "" ELSE I(x)

RECURSIVE JF(_, _, _)
J(n) == JF(n, FALSE, FALSE)
JL(s) == [i \in 1..Len(s) |-> J(s[i])]
Field(c, r) == IF c THEN r ELSE <<>>
Wrap(r, neg, nt) == IF neg \/ nt THEN r @@ Flags(neg, nt) ELSE r
JVars(s) == IF s = <<>> THEN "$null" ELSE <<"$map">> \o [i \in 1..Len(s) |-> <<I(s[i]), [Name |-> I(s[i])]>>]

JF(n, neg, nt) ==
  CASE n[1] = "nil" -> "$null"
    [] n[1] = "neg" -> JF(n[2], TRUE, nt)
    [] n[1] = "not" -> JF(n[2], neg, TRUE)
    [] n[1] = "num" -> "n:" \o ToString(n[2]) \o ":" \o n[3]
    [] n[1] = "str" -> "s:" \o n[2]
    [] n[1] = "date" -> "t:" \o n[2]
    [] n[1] = "bool" -> (n[2] = "T")
    [] n[1] \in {"undef", "break", "continue"} -> "$empty"
    [] n[1] = "label" -> [Name |-> "l:" \o n[2]]
    [] n[1] = "goto" -> [Label |-> [Name |-> "l:" \o n[2]]]
    [] n[1] = "var" -> Wrap([Name |-> I(n[2])], neg, nt)
    [] n[1] = "par" -> Wrap([Statements |-> JL(n[2])], neg, nt)
    [] n[1] = "call" -> Wrap([Name |-> I(n[2]), Param |-> [Statements |-> JL(Args(n[3]))]], neg, nt)
    [] n[1] = "new" -> [Constructor |-> OptI(n[2]), Param |-> [Statements |-> JL(Args(n[3]))]]
    [] n[1] = "chain" -> Wrap([Call |-> J(n[2]), Unit |-> J(n[3])], neg, nt)
    [] n[1] = "idx" -> Wrap([Object |-> J(n[2]), Item |-> J(n[3])], neg, nt)
    [] n[1] = "tern" -> Wrap([Expression |-> J(n[2]), TrueBlock |-> J(n[3]), ElseBlock |-> J(n[4])], neg, nt)
    [] n[1] = "bin" -> Wrap([Left |-> J(n[3]), Right |-> J(n[4]), Operation |-> OpCode(n[2])], neg, nt)
    [] n[1] = "assign" -> [Var |-> J(n[2]), Expr |-> [Statements |-> <<J(n[3])>>]]
    [] n[1] = "if" ->
         [Expression |-> J(n[2][1][1]), TrueBlock |-> JL(n[2][1][2]), ElseBlock |-> JL(n[3]),
          IfElseBlock |-> [i \in 1..Len(n[2]) - 1 |->
             [Expression |-> J(n[2][i+1][1]), TrueBlock |-> JL(n[2][i+1][2]), IfElseBlock |-> <<>>, ElseBlock |-> <<>>]]]
    [] n[1] = "foreach" -> [For |-> I(n[2]), In |-> J(n[3]), Body |-> JL(n[4])]
    [] n[1] = "for" -> [For |-> J(n[2]), To |-> J(n[3]), Body |-> JL(n[4])]
    [] n[1] = "while" -> [WhileExpr |-> J(n[2]), Body |-> JL(n[3])]
    [] n[1] = "try" -> [Body |-> JL(n[2]), Catch |-> JL(n[3])]
    [] n[1] \in {"throw", "return"} -> [Param |-> J(n[2])]
    [] n[1] = "func" ->
         [ExplicitVariables |-> JVars(n[7]), Name |-> I(n[3]), Directive |-> IF n[4] = "" THEN "" ELSE "d:" \o n[4],
          Body |-> JL(n[8]), Type |-> IF n[2] = "Function" THEN 2 ELSE 1, Export |-> n[5],
          Params |-> [i \in 1..Len(n[6]) |->
             LET p == n[6][i]
                 r == IF p[3] = Nil THEN [Name |-> I(p[1])] ELSE [Name |-> I(p[1]), Default |-> J(p[3])]
             IN IF p[2] THEN r @@ [IsValue |-> TRUE] ELSE r]]

JsonModule(m) ==
  LET r == [Name |-> "", Body |-> JL(m.body)] IN
  IF m.g = <<>> THEN r
  ELSE r @@ [GlobalVariables |-> <<"$map">> \o [i \in 1..Len(m.g) |->
         <<I(m.g[i][1]), [Directive |-> IF m.g[i][2] = "" THEN "" ELSE "d:" \o m.g[i][2],
                          Var |-> [Name |-> I(m.g[i][1])], Export |-> m.g[i][3]]>>]]
=============================================================================
