------------------------------ MODULE BslTree ------------------------------
(***************************************************************************)
(* Functions on syntax trees: the names in text order, the context rules,  *)
(* the normal form modulo redundant parentheses, and the printer (trees to *)
(* tokens).                                                                *)
(***************************************************************************)
EXTENDS Bsl, Integers

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

Args(a) == IF a = <<Nil>> THEN <<>> ELSE a
SeqMap(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

-----------------------------------------------------------------------------
(* Names and literals of a token sequence / of a tree, in text order.      *)
NameKinds == {"ID", "NUM", "STR", "DATE", "LABEL"}

TokNames(ts) == LET s == SelectSeq(ts, LAMBDA t : Kd(t) \in NameKinds)
                IN [i \in 1..Len(s) |-> Vl(s[i])]

AtName(n) == IF SubSeq(n, 1, 1) = "@" THEN <<>> ELSE <<n>>

RECURSIVE Yield(_)
YieldAll(s) == Cat([i \in 1..Len(s) |-> Yield(s[i])])
Yield(n) ==
  CASE n[1] = "nil" -> <<>>
    [] n[1] = "var" -> AtName(n[2])
    [] n[1] = "num" -> <<n[3]>>
    [] n[1] \in {"str", "date", "label", "goto"} -> <<n[2]>>
    [] n[1] \in {"bool", "undef", "break", "continue"} -> <<>>
    [] n[1] \in {"neg", "not", "return", "throw"} -> Yield(n[2])
    [] n[1] = "par" -> YieldAll(n[2])
    [] n[1] = "bin" -> Yield(n[3]) \o Yield(n[4])
    [] n[1] \in {"chain", "idx", "assign"} -> Yield(n[2]) \o Yield(n[3])
    [] n[1] = "call" -> AtName(n[2]) \o YieldAll(n[3])
    [] n[1] = "new" -> (IF n[2] = "" THEN <<>> ELSE <<n[2]>>) \o YieldAll(n[3])
    [] n[1] = "tern" -> Yield(n[2]) \o Yield(n[3]) \o Yield(n[4])
    [] n[1] = "if" -> Cat([i \in 1..Len(n[2]) |-> Yield(n[2][i][1]) \o YieldAll(n[2][i][2])]) \o YieldAll(n[3])
    [] n[1] = "foreach" -> <<n[2]>> \o Yield(n[3]) \o YieldAll(n[4])
    [] n[1] = "for" -> Yield(n[2]) \o Yield(n[3]) \o YieldAll(n[4])
    [] n[1] = "while" -> Yield(n[2]) \o YieldAll(n[3])
    [] n[1] = "try" -> YieldAll(n[2]) \o YieldAll(n[3])
    [] n[1] = "func" -> <<n[3]>> \o Cat([i \in 1..Len(n[6]) |-> <<n[6][i][1]>> \o Yield(n[6][i][3])])
                        \o n[7] \o YieldAll(n[8])

YieldModule(m) == [i \in 1..Len(m.g) |-> m.g[i][1]] \o YieldAll(m.body)

-----------------------------------------------------------------------------
(* Context rules.  l: inside a loop, h: inside a handler, f: in a function *)
RECURSIVE Ctx(_, _, _, _)
CtxAll(s, l, h, f) == \A i \in 1..Len(s) : Ctx(s[i], l, h, f)
Ctx(n, l, h, f) ==
  CASE n[1] \in {"break", "continue"} -> l
    [] n[1] = "throw" -> h \/ n[2] # Nil
    [] n[1] = "return" -> f \/ n[2] = Nil
    [] n[1] = "if" -> (\A i \in 1..Len(n[2]) : CtxAll(n[2][i][2], l, h, f)) /\ CtxAll(n[3], l, h, f)
    [] n[1] \in {"foreach", "for"} -> CtxAll(n[4], TRUE, h, f)
    [] n[1] = "while" -> CtxAll(n[3], TRUE, h, f)
    [] n[1] = "try" -> CtxAll(n[2], l, h, f) /\ CtxAll(n[3], l, TRUE, f)
    [] n[1] = "func" -> CtxAll(n[8], FALSE, FALSE, n[2] = "Function") /\ ~HasDup(n[7], <<>>)
    [] OTHER -> TRUE

(* The colon rule and "variables before procedures" are rules of the text, *)
(* not of the tree; the profiles explore them separately.                  *)
CtxOK(m) == CtxAll(m.body, FALSE, FALSE, FALSE) /\ ~HasDup(GNames(m.g), <<>>)

-----------------------------------------------------------------------------
(* Normal form: redundant parentheses dropped, `throw x` = `throw (x)`,    *)
(* an empty argument list and no argument list are the same.               *)
RECURSIVE Norm(_)
NormAll(s) == [i \in 1..Len(s) |-> Norm(s[i])]
Norm(n) ==
  CASE n[1] = "par" /\ Len(n[2]) = 1 -> Norm(n[2][1])
    [] n[1] = "par" -> <<"par", NormAll(n[2])>>
    [] n[1] = "neg" -> Neg(Norm(n[2]))
    [] n[1] = "not" -> Not(Norm(n[2]))
    [] n[1] \in {"return", "throw"} -> <<n[1], Norm(n[2])>>
    [] n[1] = "bin" -> <<"bin", n[2], Norm(n[3]), Norm(n[4])>>
    [] n[1] \in {"chain", "idx", "assign"} -> <<n[1], Norm(n[2]), Norm(n[3])>>
    [] n[1] \in {"call", "new"} -> <<n[1], n[2], NormAll(Args(n[3]))>>
    [] n[1] = "tern" -> <<"tern", Norm(n[2]), Norm(n[3]), Norm(n[4])>>
    [] n[1] = "if" -> <<"if", [i \in 1..Len(n[2]) |-> <<Norm(n[2][i][1]), NormAll(n[2][i][2])>>], NormAll(n[3])>>
    [] n[1] = "foreach" -> <<"foreach", n[2], Norm(n[3]), NormAll(n[4])>>
    [] n[1] = "for" -> <<"for", Norm(n[2]), Norm(n[3]), NormAll(n[4])>>
    [] n[1] = "while" -> <<"while", Norm(n[2]), NormAll(n[3])>>
    [] n[1] = "try" -> <<"try", NormAll(n[2]), NormAll(n[3])>>
    [] n[1] = "func" -> <<"func", n[2], n[3], n[4], n[5],
                          [i \in 1..Len(n[6]) |-> <<n[6][i][1], n[6][i][2], Norm(n[6][i][3])>>], n[7], NormAll(n[8])>>
    [] OTHER -> n

NormModule(m) == [g |-> m.g, body |-> NormAll(m.body)]

-----------------------------------------------------------------------------
(* The printer.  Operands of operations are parenthesised whenever they    *)
(* are operations; a statement that would read as an assignment is         *)
(* parenthesised.                                                          *)
T(x) == <<x, "">>
IdTok(n) == IF SubSeq(n, 1, 1) = "@" THEN T(SubSeq(n, 2, Len(n))) ELSE <<"ID", n>>

RECURSIVE Pr(_, _)
PrArgs(a) == IF a = <<>> THEN <<T("("), T(")")>>
             ELSE <<T("(")>> \o Pr(a[1], 0)
                  \o Cat([i \in 1..Len(a) - 1 |-> <<T(",")>> \o Pr(a[i+1], 0)]) \o <<T(")")>>
Paren(b, s) == IF b THEN <<T("(")>> \o s \o <<T(")")>> ELSE s

(* lv = 0: anything goes;  1: operand of И, ИЛИ;  2: operand of the rest   *)
Pr(n, lv) ==
  CASE n[1] = "nil" -> <<>>
    [] n[1] = "var" -> <<IdTok(n[2])>>
    [] n[1] = "num" -> (IF n[2] = 1 THEN <<T("-")>> ELSE <<>>) \o <<<<"NUM", n[3]>>>>
    [] n[1] = "str" -> <<<<"STR", n[2]>>>>
    [] n[1] = "date" -> <<<<"DATE", n[2]>>>>
    [] n[1] = "bool" -> <<T(IF n[2] = "T" THEN "True" ELSE "False")>>
    [] n[1] = "undef" -> <<T("Undef")>>
    [] n[1] = "neg" -> <<T("-")>> \o (IF n[2][1] = "par" THEN Paren(TRUE, Pr(n[2][2][1], 0)) ELSE Pr(n[2], 2))
    [] n[1] = "not" -> Paren(lv = 2, <<T("Not")>> \o
                         (IF n[2][1] = "par" THEN Paren(TRUE, Pr(n[2][2][1], 0)) ELSE Pr(n[2], 2)))
    [] n[1] = "par" -> IF Len(n[2]) = 1 THEN Pr(n[2][1], lv) ELSE PrArgs(n[2])
    [] n[1] = "bin" -> LET o == IF n[2] \in {"And", "Or"} THEN 1 ELSE 2
                       IN Paren(lv > 0, Pr(n[3], o) \o <<T(n[2])>> \o Pr(n[4], o))
    [] n[1] = "chain" -> Pr(n[2], 2) \o <<T(".")>> \o Pr(n[3], 2)
    [] n[1] = "call" -> <<IdTok(n[2])>> \o PrArgs(Args(n[3]))
    [] n[1] = "idx" -> Pr(n[2], 2) \o <<T("[")>> \o Pr(n[3], 0) \o <<T("]")>>
    [] n[1] = "new" -> <<T("New")>> \o (IF n[2] = "" THEN <<>> ELSE <<<<"ID", n[2]>>>>) \o PrArgs(Args(n[3]))
    [] n[1] = "tern" -> <<T("?"), T("(")>> \o Pr(n[2], 0) \o <<T(",")>> \o Pr(n[3], 0)
                        \o <<T(",")>> \o Pr(n[4], 0) \o <<T(")")>>

RECURSIVE PrStmt(_)
PrBlock(b) == Cat([i \in 1..Len(b) |-> PrStmt(b[i])])
PrStmt(n) ==
  CASE n[1] = "assign" -> Pr(n[2], 2) \o <<T("=")>> \o Pr(n[3], 0) \o <<T(";")>>
    [] n[1] = "if" ->
         Cat([i \in 1..Len(n[2]) |-> <<T(IF i = 1 THEN "If" ELSE "ElseIf")>> \o Pr(n[2][i][1], 0)
                                     \o <<T("Then")>> \o PrBlock(n[2][i][2])])
         \o (IF n[3] = <<>> THEN <<>> ELSE <<T("Else")>> \o PrBlock(n[3])) \o <<T("EndIf"), T(";")>>
    [] n[1] = "foreach" -> <<T("For"), T("Each"), <<"ID", n[2]>>, T("In")>> \o Pr(n[3], 0) \o <<T("Loop")>>
                           \o PrBlock(n[4]) \o <<T("EndLoop"), T(";")>>
    [] n[1] = "for" -> <<T("For")>> \o Pr(n[2], 0) \o <<T("To")>> \o Pr(n[3], 0) \o <<T("Loop")>>
                       \o PrBlock(n[4]) \o <<T("EndLoop"), T(";")>>
    [] n[1] = "while" -> <<T("While")>> \o Pr(n[2], 0) \o <<T("Loop")>> \o PrBlock(n[3]) \o <<T("EndLoop"), T(";")>>
    [] n[1] = "try" -> <<T("Try")>> \o PrBlock(n[2]) \o <<T("Catch")>> \o PrBlock(n[3]) \o <<T("EndTry"), T(";")>>
    [] n[1] = "throw" -> <<T("Throw")>> \o (IF n[2] = Nil THEN <<>>
                            ELSE IF n[2][1] = "par" THEN PrArgs(n[2][2])
                            ELSE Paren(TRUE, Pr(n[2], 0))) \o <<T(";")>>
    [] n[1] = "return" -> <<T("Return")>> \o Pr(n[2], 0) \o <<T(";")>>
    [] n[1] = "break" -> <<T("Break"), T(";")>>
    [] n[1] = "continue" -> <<T("Continue"), T(";")>>
    [] n[1] = "label" -> <<<<"LABEL", n[2]>>, T(":")>>
    [] n[1] = "goto" -> <<T("GoTo"), <<"LABEL", n[2]>>, T(";")>>
    [] n[1] = "func" ->
         (IF n[4] = "" THEN <<>> ELSE <<<<"DIR", n[4]>>>>) \o <<T(n[2]), <<"ID", n[3]>>, T("(")>>
         \o Cat([i \in 1..Len(n[6]) |->
              (IF i > 1 THEN <<T(",")>> ELSE <<>>) \o (IF n[6][i][2] THEN <<T("Val")>> ELSE <<>>)
              \o <<<<"ID", n[6][i][1]>>>> \o (IF n[6][i][3] = Nil THEN <<>> ELSE <<T("=")>> \o Pr(n[6][i][3], 0))])
         \o <<T(")")>> \o (IF n[5] THEN <<T("Export")>> ELSE <<>>)
         \o Cat([i \in 1..Len(n[7]) |-> <<T("Var"), <<"ID", n[7][i]>>, T(";")>>])
         \o PrBlock(n[8]) \o <<T(EndFn(n[2]))>>
    [] n[1] = "par" -> Paren(TRUE, Pr(n, 0)) \o <<T(";")>>
    [] n[1] = "bin" /\ n[2] = "=" -> Paren(TRUE, Pr(n, 0)) \o <<T(";")>>
    [] OTHER -> Pr(n, 0) \o <<T(";")>>

PrintModule(m) ==
  Cat([i \in 1..Len(m.g) |-> (IF m.g[i][2] = "" THEN <<>> ELSE <<<<"DIR", m.g[i][2]>>>>)
        \o <<T("Var"), <<"ID", m.g[i][1]>>>> \o (IF m.g[i][3] THEN <<T("Export")>> ELSE <<>>) \o <<T(";")>>])
  \o PrBlock(m.body)
=============================================================================
