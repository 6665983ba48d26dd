------------------------------ MODULE BslLines ------------------------------
(***************************************************************************)
(* The layout of printed code: a module is a sequence of lines             *)
(* <<nesting level, tokens>>.                                              *)
(***************************************************************************)
EXTENDS BslTree

L(d, ts) == <<<<d, ts>>>>

RECURSIVE Ln(_, _)
LnBody(b, d) == Cat([i \in 1..Len(b) |-> Ln(b[i], d)])
Ln(n, d) ==
  CASE n[1] = "if" ->
         Cat([i \in 1..Len(n[2]) |->
                L(d, <<T(IF i = 1 THEN "If" ELSE "ElseIf")>> \o Pr(n[2][i][1], 0) \o <<T("Then")>>) \o LnBody(n[2][i][2], d + 1)])
         \o (IF n[3] = <<>> THEN <<>> ELSE L(d, <<T("Else")>>) \o LnBody(n[3], d + 1))
         \o L(d, <<T("EndIf"), T(";")>>)
    [] n[1] = "foreach" -> L(d, <<T("For"), T("Each"), <<"ID", n[2]>>, T("In")>> \o Pr(n[3], 0) \o <<T("Loop")>>)
                           \o LnBody(n[4], d + 1) \o L(d, <<T("EndLoop"), T(";")>>)
    [] n[1] = "for" -> L(d, <<T("For")>> \o Pr(n[2], 0) \o <<T("To")>> \o Pr(n[3], 0) \o <<T("Loop")>>)
                       \o LnBody(n[4], d + 1) \o L(d, <<T("EndLoop"), T(";")>>)
    [] n[1] = "while" -> L(d, <<T("While")>> \o Pr(n[2], 0) \o <<T("Loop")>>)
                         \o LnBody(n[3], d + 1) \o L(d, <<T("EndLoop"), T(";")>>)
    [] n[1] = "try" -> L(d, <<T("Try")>>) \o LnBody(n[2], d + 1) \o L(d, <<T("Catch")>>) \o LnBody(n[3], d + 1)
                       \o L(d, <<T("EndTry"), T(";")>>)
    [] n[1] = "func" ->
         (IF n[4] = "" THEN <<>> ELSE L(d, <<<<"DIR", n[4]>>>>))
         \o L(d, <<T(n[2]), <<"ID", n[3]>>, T("(")>>
              \o Cat([i \in 1..Len(n[6]) |->
                   (IF i > 1 THEN <<T(",")>> ELSE <<>>) \o (IF n[6][i][2] THEN <<T("Val")>> ELSE <<>>)
                   \o <<<<"ID", n[6][i][1]>>>> \o (IF n[6][i][3] = Nil THEN <<>> ELSE <<T("=")>> \o Pr(n[6][i][3], 0))])
              \o <<T(")")>> \o (IF n[5] THEN <<T("Export")>> ELSE <<>>))
         \o (IF n[7] = <<>> THEN <<>> ELSE L(d + 1, <<T("Var*")>> \o [i \in 1..Len(n[7]) |-> <<"ID", n[7][i]>>]))
         \o LnBody(n[8], d + 1) \o L(d, <<T(EndFn(n[2]))>>)
    [] OTHER -> L(d, PrStmt(n))

Lines(m) == [g |-> [i \in 1..Len(m.g) |->
                (IF m.g[i][2] = "" THEN <<>> ELSE L(0, <<<<"DIR", m.g[i][2]>>>>))
                \o L(0, <<T("Var"), <<"ID", m.g[i][1]>>>> \o (IF m.g[i][3] THEN <<T("Export")>> ELSE <<>>) \o <<T(";")>>)],
             b |-> LnBody(m.body, 0)]

(* Without its line breaks and indentation the layout is the printed text. *)
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls)[2] \o Flat(Tail(ls))
LinesOK(m) == (\A i \in 1..Len(m.body) : m.body[i][1] # "func" \/ m.body[i][7] = <<>>)
              => Flat(Lines(m).b) = PrBlock(m.body)
=============================================================================
