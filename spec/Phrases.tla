------------------------------- MODULE Phrases ------------------------------
(***************************************************************************)
(* The explorations: one alphabet of phrases and one set of starts per     *)
(* concern.  A configuration file picks Start and Phrases by name.         *)
(***************************************************************************)
EXTENDS Bsl, FiniteSets

w(x) == <<x, "">>
id == <<"ID", "#">>
num == <<"NUM", "#">>
str == <<"STR", "#">>
dat == <<"DATE", "#">>
lab == <<"LABEL", "#">>
n(x) == <<"ID", x>>
d(x) == <<"DIR", x>>

Empty == {<<>>}

One(S) == {<<x>> : x \in S}

-----------------------------------------------------------------------------
(* Contexts in which an expression stands.                                 *)
S_Assign == {<<id, w("=")>>}
S_Expr == {
  <<id, w("=")>>,
  <<w("If")>>,
  <<w("While")>>,
  <<id, w("(")>>,
  <<id, w("("), w(",")>>,
  <<id, w("="), id, w("[")>>,
  <<id, w("["), num, w("]"), w("[")>>,
  <<id, w("="), w("?"), w("(")>>,
  <<id, w("="), w("?"), w("("), id, w(","), id, w(",")>>,
  <<id, w("="), w("New"), id, w("(")>>,
  <<id, w("="), w("New"), w("("), str, w(",")>>,
  <<id, w("="), w("(")>>,
  <<w("Execute"), w("(")>>,
  <<w("For"), id, w("To")>>,
  <<w("For")>>,
  <<w("For"), w("Each"), id, w("In"), id, w("(")>>,
  <<w("Function"), id, w("("), w(")"), w("Return")>>,
  <<w("If"), id, w("Then"), w("ElseIf")>>,
  <<w("Try"), w("Catch"), w("Throw")>>,
  <<w("Throw")>>
}

-----------------------------------------------------------------------------
(* Operators.                                                              *)
P_Ops == {<<id>>} \cup {<<w(o), id>> : o \in BinOps}

P_OpsUn == P_Ops
  \cup {<<w(u), id>> : u \in {"Not", "-"}}
  \cup {<<w(o), w("Not"), id>> : o \in BinOps}
  \cup {<<w(o), w("-"), id>> : o \in BinOps}

ops5 == {"+", "*", "=", "And", "Or"}
P_OpsPar == {<<id>>, <<w("(")>>, <<w("Not")>>, <<w("-")>>, <<w(")")>>}
  \cup {<<w(o)>> : o \in {"-", "/", "=", "<>", "And", "Or"}}

P_OpsDeep == {<<id>>, <<num>>, <<w("("), id>>, <<w("("), w("Not")>>, <<w("-"), id>>, <<w("Not"), id>>, <<w(")")>>, <<w(")"), w(";"), id, w("=")>>,
              <<id, w("("), id>>, <<w(","), id>>, <<w("?"), w("("), id>>}
  \cup {<<w(o), id>> : o \in BinOps} \cup {<<w(o), w("(")>> : o \in BinOps}
  \cup {<<w(o), w("Not")>> : o \in BinOps} \cup {<<w(o), w("-")>> : o \in BinOps}

(* Signs on every kind of operand.                                         *)
operands == {
  <<id>>, <<num>>, <<w("True")>>, <<w("False")>>,
  <<str>>, <<dat>>, <<w("Undef")>>, <<w("New"), id>>, <<w("New"), id, w("("), id, w(")")>>,
  <<id, w("("), id, w(")")>>,
  <<id, w("("), w(")")>>,
  <<id, w("."), id>>,
  <<id, w("."), id, w("("), w(")")>>,
  <<id, w("["), id, w("]")>>,
  <<id, w("."), id, w("["), num, w("]")>>,
  <<w("("), id, w(")")>>,
  <<w("("), id, w("+"), id, w(")")>>,
  <<w("("), w("-"), id, w(")")>>,
  <<w("("), w("Not"), id, w(")")>>,
  <<w("("), num, w(")")>>,
  <<w("?"), w("("), id, w(","), id, w(","), id, w(")")>>
}
P_Unary == operands \cup {<<w("-")>>, <<w("Not")>>, <<w("+")>>}
P_UnaryOps == P_Unary \cup {<<w(o)>> : o \in {"-", "*", "=", "And"}} \cup {<<w(",")>>, <<w(")")>>}

(* A sign in front of every operator.                                      *)
S_Neg == {<<id, w("=")>> \o u \o <<w("("), id, w(o), id, w(")")>> :
            u \in {<<w("Not")>>, <<w("-")>>, <<w("Not"), w("Not")>>, <<w("-"), w("-")>>, <<w("Not"), w("-")>>, <<w("-"), w("Not")>>,
                   <<w("Not"), w("(")>>, <<w("-"), w("(")>>, <<id, w("-")>>, <<id, w("And"), w("Not")>>, <<w("("), w("Not")>>}, o \in BinOps}
S_NegDeep == S_Neg \cup {<<id, w("=")>> \o u \o <<w("(")>> \o x \o <<w(o)>> \o y \o <<w(")")>> :
            u \in {<<w("Not")>>, <<w("-")>>}, o \in BinOps, x \in operands, y \in operands}
P_Neg == {<<w(o), id>> : o \in BinOps} \cup {<<w(")")>>, <<w(";")>>, <<w("And"), w("Not"), w("("), id, w("="), id, w(")")>>}
-----------------------------------------------------------------------------
(* References.                                                             *)
P_Ref == {<<id>>, <<w("."), id>>, <<w("(")>>, <<w(",")>>, <<w(")")>>, <<w("["), id>>, <<w("]")>>,
          <<w("New"), id>>, <<w("New"), w("(")>>, <<w("?"), w("(")>>, <<num>>, <<w("+")>>, <<w("Execute"), w("(")>>}
P_RefLink == {<<id>>, <<id, w("("), w(")")>>, <<id, w("("), id, w(")")>>, <<id, w("("), w(","), id, w(")")>>,
              <<w("."), id>>, <<w("."), id, w("("), w(")")>>, <<w("."), id, w("("), id, w(","), num, w(")")>>,
              <<w("["), num, w("]")>>, <<w("["), id, w("."), id, w("]")>>, <<w("=")>>,
              <<w(";")>>, <<w("New"), id>>, <<w("New"), id, w("("), id, w(","), w(","), id, w(")")>>,
              <<w("New"), w("("), str, w(")")>>, <<w("New"), w("("), str, w(","), id, w(")")>>,
              <<w("Execute"), str>>, <<w("Execute"), w("("), str, w(")")>>, <<w("Execute"), id>>,
              <<w("?"), w("("), id, w(","), num, w(","), str, w(")")>>,
              <<w("."), w("Execute"), w("("), w(")")>>}
S_Ref == {<<>>, <<id, w("=")>>, <<w("For"), w("Each"), id, w("In")>>, <<w("If")>>}
S_Args == {<<id, w("(")>>, <<id, w("="), w("New"), id, w("(")>>, <<id, w("."), id, w("(")>>}
P_Args == {<<w(",")>>, <<id>>, <<num>>, <<str>>, <<w("Undef")>>, <<w("True")>>, <<dat>>, <<id, w("(")>>, <<w(")")>>,
           <<id, w("+"), id>>, <<id, w("."), id>>, <<w("-"), id>>, <<w("Not"), id>>, <<w("New"), id>>, <<w("("), id, w(")")>>}

-----------------------------------------------------------------------------
(* Statements and blocks.                                                  *)
simple == {<<id, w("="), num, w(";")>>, <<id, w("("), id, w(")"), w(";")>>}
blocks == {<<w("If"), id, w("Then")>>, <<w("ElseIf"), id, w("Then")>>, <<w("Else")>>, <<w("EndIf")>>, <<w("EndIf"), w(";")>>,
           <<w("While"), id, w("Loop")>>, <<w("For"), id, w("="), num, w("To"), id, w("Loop")>>,
           <<w("For"), w("Each"), id, w("In"), id, w("Loop")>>, <<w("EndLoop"), w(";")>>,
           <<w("Try")>>, <<w("Catch")>>, <<w("EndTry"), w(";")>>}
procs == {<<w("Procedure"), id, w("("), w(")")>>, <<w("EndProcedure")>>,
          <<w("Function"), id, w("("), id, w(")")>>, <<w("EndFunction")>>}
P_Stmt == simple \cup blocks \cup procs \cup {<<w(";")>>, <<id, w("="), id>>}
P_StmtSmall == {<<id, w("="), num>>, <<w(";")>>, <<w("If"), id, w("Then")>>, <<w("ElseIf"), id, w("Then")>>, <<w("Else")>>,
                <<w("EndIf")>>, <<w("Try")>>, <<w("Catch")>>, <<w("EndTry")>>, <<w("While"), id, w("Loop")>>, <<w("EndLoop")>>}
P_StmtDeep == simple \cup blocks \cup procs \cup {<<w(";")>>}
  \cup {<<id, w("."), id, w("("), id, w(")"), w(";")>>, <<w("Throw"), str, w(";")>>, <<w("Return"), w(";")>>,
        <<w("Break"), w(";")>>, <<w("Continue"), w(";")>>, <<w("Throw"), w(";")>>, <<w("Return"), id, w(";")>>,
        <<lab, w(":")>>, <<w("GoTo"), lab, w(";")>>,
        <<id, w("="), w("Not"), id, w("="), w("-"), num, w("And"), id, w(";")>>,
        <<id, w("="), str, w("+"), id, w("["), id, w("+"), num, w("]"), w("*"), w("-"), id, w(";")>>,
        <<id, w("="), w("?"), w("("), id, w(","), w("True"), w(","), w("Undef"), w(")"), w(";")>>,
        <<id, w("="), w("New"), id, w("("), dat, w(","), w(","), id, w(")"), w(";")>>}
S_Proc == {<<>>, <<w("Procedure"), id, w("("), w(")")>>, <<w("Function"), id, w("("), w(")")>>}
S_StaleBody == {<<w("Procedure"), id, w("("), w(")"), w("EndProcedure"),
                  w("Procedure"), id, w("("), w(")"), id, w("="), num, w(";"), w("EndProcedure")>>,
                <<id, w("="), num, w(";"), w("If"), id, w("Then"), id, w("="), num, w(";"), w("EndIf"), w(";")>>}

(* Context rules: opening, closing, and the operator.                      *)
P_CtxLoop == {<<w("While"), id, w("Loop")>>, <<w("For"), id, w("="), num, w("To"), num, w("Loop")>>,
              <<w("For"), w("Each"), id, w("In"), id, w("Loop")>>, <<w("EndLoop"), w(";")>>,
              <<w("If"), id, w("Then")>>, <<w("Else")>>, <<w("EndIf"), w(";")>>,
              <<w("Try")>>, <<w("Catch")>>, <<w("EndTry"), w(";")>>,
              <<w("Procedure"), id, w("("), w(")")>>, <<w("EndProcedure")>>,
              <<w("Function"), id, w("("), w(")")>>, <<w("EndFunction")>>,
              <<w("Break"), w(";")>>, <<w("Continue"), w(";")>>}
P_CtxCatch == {<<w("While"), id, w("Loop")>>, <<w("EndLoop"), w(";")>>,
               <<w("If"), id, w("Then")>>, <<w("ElseIf"), id, w("Then")>>, <<w("EndIf"), w(";")>>,
               <<w("Try")>>, <<w("Catch")>>, <<w("EndTry"), w(";")>>,
               <<w("Procedure"), id, w("("), w(")")>>, <<w("EndProcedure")>>,
               <<w("Function"), id, w("("), w(")")>>, <<w("EndFunction")>>,
               <<w("Throw"), w(";")>>, <<w("Throw"), str, w(";")>>,
               <<w("Return"), w(";")>>, <<w("Return"), id, w(";")>>}

-----------------------------------------------------------------------------
(* Declarations.                                                           *)
P_DeclOrder == {<<w("Var"), n("a"), w(";")>>, <<w("Var"), n("^a"), w(";")>>, <<w("Var"), n("b"), w(","), n("a"), w(";")>>,
                <<w("Var"), n("c"), w("Export"), w(";")>>, <<d("d1"), w("Var"), n("b"), w(";")>>,
                <<w("Var"), n("^b"), w(","), n("c"), w("Export"), w(";")>>,
                <<w("Procedure"), n("a"), w("("), w(")"), w("EndProcedure")>>,
                <<w("Procedure"), n("p"), w("("), n("a"), w(")")>>, <<w("EndProcedure")>>,
                <<d("d2"), w("Function"), n("f"), w("("), w(")"), w("Export")>>, <<w("EndFunction")>>,
                <<id, w("="), num, w(";")>>}
P_DeclDup == {<<w("Var"), n("a"), w(";")>>, <<w("Var"), n("^a"), w(";")>>, <<w("Var"), n("b"), w(","), n("c"), w(";")>>,
              <<w("Var"), n("d"), w(","), n("^d"), w(";")>>, <<w("Var"), n("^c"), w(";")>>,
              <<w("Procedure"), id, w("("), w(")")>>, <<w("EndProcedure")>>,
              <<w("Function"), id, w("("), n("a"), w(")")>>, <<w("EndFunction")>>,
              <<id, w("="), num, w(";")>>}
dirs == {<<d("d1")>>, <<d("d2")>>, <<d("d3")>>, <<d("d4")>>, <<d("d5")>>}
P_DeclAttr == {<<d("d1")>>, <<d("d3")>>,
               <<w("Procedure"), id, w("(")>>, <<w("Function"), id, w("(")>>,
               <<id>>, <<w("Val"), id>>, <<id, w("="), num>>, <<w("Val"), id, w("="), w("-"), num>>, <<w(",")>>,
               <<w(")")>>, <<w(")"), w("Export")>>,
               <<w("Var"), id, w(";")>>, <<w("Var"), id, w(","), id, w("Export"), w(";")>>, <<w("Var"), id, w(","), id, w(";")>>,
               <<w("EndProcedure")>>, <<w("EndFunction")>>, <<id, w("="), num, w(";")>>}
S_Param == {<<w("Procedure"), id, w("(")>>, <<d("d4"), w("Function"), id, w("("), w("Val"), id, w(",")>>}
P_Param == {<<id>>, <<w("Val"), id>>, <<w(",")>>, <<w(")")>>, <<w("=")>>, <<num>>, <<str>>, <<dat>>, <<w("True")>>, <<w("False")>>,
            <<w("Undef")>>, <<w("-")>>, <<w("-"), num>>, <<w("+"), num>>}
P_DeclDeep == P_DeclAttr \cup dirs \cup {<<w(";")>>, <<id, w("="), str>>, <<id, w("="), dat>>, <<id, w("="), w("True")>>,
               <<w("Val"), id, w("="), w("Undef")>>, <<id, w("="), w("False")>>, <<id, w(","), id, w(",")>>,
               <<d("d5"), w("Var"), id, w("Export"), w(";")>>, <<d("d2"), w("Procedure"), id, w("("), w(")")>>,
               <<d("d4"), w("Function"), id, w("("), id, w(","), w("Val"), id, w("="), str, w(")"), w("Export")>>,
               <<w("If"), id, w("Then")>>, <<w("EndIf"), w(";")>>, <<w("Return"), w(";")>>}

-----------------------------------------------------------------------------
(* Separators, labels, jumps.                                              *)
P_Sep == {<<id, w("="), num>>, <<id, w("("), w(")")>>, <<w(";")>>, <<w(":")>>, <<lab>>, <<w("GoTo"), lab>>,
          <<w("If"), id, w("Then")>>, <<w("Else")>>, <<w("EndIf")>>, <<w("While"), id, w("Loop")>>, <<w("EndLoop")>>,
          <<w("Try")>>, <<w("Catch")>>, <<w("EndTry")>>, <<w("Break")>>, <<w("Return")>>}
P_SepDeep == P_Sep \cup {<<lab, w(":")>>, <<w(";"), w(";")>>, <<w("Throw"), str>>, <<id, w("."), id, w("("), w(")")>>,
              <<id, w("="), num, w(";")>>}

-----------------------------------------------------------------------------
(* Everything, token by token.                                             *)
P_Tok == One({<<x, "">> : x \in Keywords \cup BinOps \cup {"(", ")", "[", "]", ",", ".", ";", ":", "?"}}
             \cup {id, num, str, dat, lab, d("d1")})
P_All == P_StmtDeep \cup P_DeclDeep \cup P_RefLink
S_All == {<<>>, <<id, w("=")>>, <<w("Procedure"), id, w("("), w(")")>>, <<w("For")>>, <<w("If")>>,
          <<w("Function"), id, w("(")>>, <<w("While"), id, w("Loop")>>, <<w("Try"), w("Catch")>>}

(* Nesting and size: few phrases, long paths.                              *)
P_Nest == {<<w("If"), id, w("Then")>>, <<w("While"), id, w("Loop")>>, <<w("Try")>>, <<w("Catch")>>, <<w("Else")>>,
           <<id, w("="), num, w(";")>>, <<w("EndIf"), w(";")>>, <<w("EndLoop"), w(";")>>, <<w("EndTry"), w(";")>>,
           <<w("For"), w("Each"), id, w("In"), id, w("Loop")>>, <<w("If"), w("("), id, w("And"), id, w(")"), w("Then")>>}
P_NestExpr == {<<id>>, <<w("(")>>, <<w("("), id, w("+")>>, <<id, w("(")>>, <<id, w("["), num, w("+")>>, <<w("?"), w("("), id, w(",")>>,
               <<id, w("."), id, w("(")>>, <<w("New"), id, w("(")>>, <<w(",")>>, <<w(")")>>, <<w("]")>>, <<w("-")>>,
               <<w("Not"), w("(")>>, <<w("*")>>, <<w("Or")>>}
-----------------------------------------------------------------------------
(* Whole programs out of complete statements and block brackets: a random   *)
(* path never gets stuck.                                                  *)
exprs == {
  <<id>>, <<num>>, <<str>>, <<dat>>, <<w("True")>>, <<w("False")>>, <<w("Undef")>>,
  <<w("-"), id>>, <<w("-"), num>>, <<w("Not"), id>>, <<w("Not"), w("True")>>,
  <<w("-"), str>>, <<w("Not"), num>>, <<w("-"), w("Not"), id>>, <<w("Not"), w("-"), w("Not"), id>>, <<w("-"), w("New"), id>>, <<w("-"), w("True")>>,
  <<w("-"), id, w("."), id>>, <<w("-"), id, w("("), id, w(")")>>, <<w("-"), id, w("["), id, w("]")>>,
  <<w("-"), w("("), id, w("+"), id, w(")")>>, <<w("-"), w("?"), w("("), id, w(","), num, w(","), id, w(")")>>,
  <<w("Not"), id, w("."), id, w("("), id, w(")")>>, <<w("Not"), id, w("("), w(")")>>, <<w("Not"), id, w("["), num, w("]")>>,
  <<w("Not"), w("("), id, w("And"), w("Not"), id, w(")")>>, <<w("Not"), w("?"), w("("), id, w(","), w("True"), w(","), id, w(")")>>,
  <<id, w("-"), w("-"), id, w("*"), w("-"), num>>, <<w("Not"), id, w("="), id, w("Or"), w("Not"), id, w("<>"), w("-"), id>>,
  <<id, w("*"), w("("), id, w("+"), id, w(")"), w("/"), id>>, <<id, w("-"), w("("), id, w("-"), id, w(")"), w("-"), id>>,
  <<w("("), id, w("="), id, w(")"), w("="), w("("), id, w("<"), id, w(")")>>,
  <<w("("), id, w("Or"), id, w(")"), w("And"), id, w(">="), id>>, <<id, w("%"), id, w("<="), id, w(">"), num>>,
  <<id, w("("), w(","), w(","), id, w(","), w(")")>>, <<id, w("("), id, w("("), w(")"), w(","), id, w("."), id, w("("), num, w(","), w(")"), w(")")>>,
  <<id, w("."), id, w("."), id, w("("), id, w(")"), w("."), id>>, <<id, w("("), id, w(")"), w("["), id, w("]"), w("."), id>>,
  <<id, w("["), id, w("["), id, w("]"), w("+"), num, w("]"), w("["), str, w("]")>>, <<id, w("."), w("EndIf"), w("."), w("Execute"), w("("), id, w(")")>>,
  <<w("New"), id>>, <<w("New"), id, w("("), w(")")>>, <<w("New"), id, w("("), w(","), id, w("."), id, w(","), w(","), str, w(")")>>,
  <<w("New"), w("("), str, w(")")>>, <<w("New"), w("("), id, w("+"), str, w(","), id, w(")")>>,
  <<w("?"), w("("), id, w("="), num, w(","), id, w("("), w(")"), w(","), w("?"), w("("), w("Not"), id, w(","), id, w(","), w("Undef"), w(")"), w(")")>>,
  <<w("?"), w("("), id, w(","), id, w(","), id, w(")"), w("+"), str, w("+"), id>>,
  <<w("("), w("("), id, w(")"), w(")")>>, <<w("("), w("New"), id, w(")")>>,
  <<w("Execute"), w("("), str, w(")")>>
}
stmt1 ==
  {<<id, w("=")>> \o e \o <<w(";")>> : e \in exprs}
  \cup {<<w("Return")>> \o e \o <<w(";")>> : e \in exprs}
  \cup {<<id, w("("), id, w(",")>> \o e \o <<w(")"), w(";")>> : e \in exprs}
  \cup {<<id, w("["), num, w("]"), w("."), id, w("=")>> \o e \o <<w(";")>> : e \in exprs}
  \cup {<<w("Throw")>> \o e \o <<w(";")>> : e \in exprs}
  \cup {<<id, w("("), w(")"), w(";")>>, <<id, w("("), w(","), w(","), id, w(")"), w(";")>>, <<id, w("."), id, w("("), id, w(","), w(")"), w(";")>>,
        <<id, w("."), id, w("."), id, w("("), w(")"), w("."), id, w("("), w("-"), id, w(")"), w(";")>>,
        <<id, w("["), id, w("]"), w("."), id, w("("), w(")"), w(";")>>,
        <<w("("), id, w("="), num, w(")"), w(";")>>,
        <<w("Execute"), str, w(";")>>, <<w("Execute"), w("("), id, w("+"), str, w(")"), w(";")>>, <<w("Execute"), id, w(";")>>,
        <<w("Return"), w(";")>>, <<w("Throw"), w(";")>>, <<w("Throw"), w("("), str, w(","), id, w(")"), w(";")>>,
        <<w("Break"), w(";")>>, <<w("Continue"), w(";")>>, <<w("New"), id, w("("), id, w(")"), w(";")>>,
        <<lab, w(":")>>, <<w("GoTo"), lab, w(";")>>}
heads == {<<w("If")>> \o e \o <<w("Then")>> : e \in exprs}
  \cup {<<w("ElseIf")>> \o e \o <<w("Then")>> : e \in exprs}
  \cup {<<w("While")>> \o e \o <<w("Loop")>> : e \in exprs}
  \cup {<<w("For"), id, w("="), num, w("To")>> \o e \o <<w("Loop")>> : e \in exprs}
  \cup {<<w("For"), w("Each"), id, w("In"), id, w("."), id, w("("), id, w(")"), w("Loop")>>,
        <<w("For"), w("Each"), id, w("In"), w("New"), id, w("("), num, w(")"), w("Loop")>>}
bodyends == {<<w("Else")>>, <<w("EndIf"), w(";")>>, <<w("EndLoop"), w(";")>>, <<w("Try")>>, <<w("Catch")>>, <<w("EndTry"), w(";")>>}
decls == {
  <<w("Procedure"), id, w("("), w(")")>>, <<w("Function"), id, w("("), w(")"), w("Export")>>, <<w("EndProcedure")>>, <<w("EndFunction")>>,
  <<d("d1"), w("Procedure"), id, w("("), id, w(","), w("Val"), id, w("="), w("-"), num, w(")")>>,
  <<d("d4"), w("Function"), id, w("("), w("Val"), id, w(","), id, w("="), str, w(","), id, w("="), dat, w(")"), w("Export")>>,
  <<w("Procedure"), id, w("("), id, w("="), w("True"), w(","), id, w("="), w("Undef"), w(")"), w("Var"), id, w(","), id, w(";"), w("Var"), id, w(";")>>,
  <<w("Function"), id, w("("), id, w("="), num, w(")"), w("Var"), id, w(";")>>,
  <<w("Var"), id, w(";")>>, <<d("d3"), w("Var"), id, w(","), id, w("Export"), w(";")>>, <<w("Var"), id, w(","), id, w("Export"), w(";")>>}
(* the closing brackets are repeated so that random paths close what they open *)
P_Prog == stmt1 \cup heads \cup bodyends \cup decls
P_ProgS == heads \cup bodyends \cup decls \cup {<<id, w("="), num, w(";")>>, <<id, w("("), id, w(")"), w(";")>>, <<w("Return"), w("-"), id, w("."), id, w(";")>>}
P_Exprs == stmt1
S_Prog == {<<>>, <<w("Procedure"), id, w("("), w(")")>>, <<w("Function"), id, w("("), w(")")>>,
           <<w("Function"), id, w("("), w(")"), w("While"), id, w("Loop")>>,
           <<w("Function"), id, w("("), w(")"), w("Try"), w("Catch"), w("While"), id, w("Loop"), w("If"), id, w("Then")>>}

-----------------------------------------------------------------------------
(* Groups for random walks.                                                *)
G_None == {}
G_Prog == {stmt1, {p \in stmt1 : p[Len(p)] = w(":") \/ Len(p) < 5}, heads, decls}
          \cup {{p} : p \in bodyends} \cup {{<<w("EndProcedure")>>}, {<<w("EndFunction")>>}}
          \cup {{<<w("Else")>>, <<w("Catch")>>}, {<<id, w("="), num, w(";")>>, <<id, w("("), id, w(")"), w(";")>>}}
Singles(P) == {{p} : p \in P}

-----------------------------------------------------------------------------
(* Every kind of statement in every kind of block, two levels deep.        *)
a1 == <<id, w("="), num, w(";")>>
if1 == <<w("If"), id, w("Then")>>
blks == {
  if1, if1 \o a1, if1 \o <<w("Else")>>, if1 \o a1 \o <<w("Else")>> \o a1, if1 \o <<w("ElseIf"), id, w("Then")>>,
  if1 \o <<w("ElseIf"), id, w("Then"), w("Else")>>, if1 \o a1 \o <<w("ElseIf"), id, w("Then")>> \o a1 \o <<w("ElseIf"), id, w("Then")>>,
  if1 \o <<w("ElseIf"), id, w("Then")>> \o a1 \o <<w("ElseIf"), id, w("Then"), w("Else")>>,
  <<w("While"), id, w("Loop")>>, <<w("For"), id, w("="), num, w("To"), num, w("Loop")>>, <<w("For"), w("Each"), id, w("In"), id, w("Loop")>>,
  <<w("Try")>>, <<w("Try")>> \o a1, <<w("Try"), w("Catch")>>, <<w("Try")>> \o a1 \o <<w("Catch")>> \o a1
}
bases == {<<>>, <<w("Procedure"), id, w("("), w(")")>>, <<w("Function"), id, w("("), id, w(")"), w("Var"), id, w(";")>>,
          <<w("Function"), id, w("("), w(")"), w("While"), id, w("Loop"), w("Try"), w("Catch")>>,
          <<w("Procedure"), id, w("("), w(")"), w("EndProcedure"), w("Function"), id, w("("), w(")"), w("EndFunction")>>}
S_Ctx1 == bases \cup {b \o c : b \in bases, c \in blks}
S_Ctx2 == {<<w("Function"), id, w("("), w(")"), w("While"), id, w("Loop"), w("Try"), w("Catch")>> \o b \o c : b \in blks, c \in blks}
          \cup {b \o c : b \in blks, c \in blks}
P_Kinds == {
  a1, <<id, w("."), id, w("="), id, w(";")>>, <<id, w("["), id, w("]"), w("="), str, w(";")>>, <<id, w("("), w(")"), w(";")>>,
  <<id, w("("), id, w(","), w(","), num, w(")"), w(";")>>, <<id, w("."), id, w("("), id, w(")"), w(";")>>, <<id, w("."), id, w(";")>>,
  <<id, w(";")>>, <<id, w("["), num, w("]"), w("."), id, w("("), w(")"), w(";")>>,
  <<id, w("="), w("-"), id, w("+"), w("Not"), id, w(";")>>, <<id, w("="), w("?"), w("("), id, w(","), id, w(","), id, w(")"), w(";")>>,
  <<id, w("="), w("New"), id, w("("), id, w(")"), w(";")>>, <<w("Execute"), w("("), str, w(")"), w(";")>>,
  <<w("Return"), w(";")>>, <<w("Return"), id, w("="), id, w(";")>>, <<w("Throw"), w(";")>>, <<w("Throw"), str, w(";")>>,
  <<w("Break"), w(";")>>, <<w("Continue"), w(";")>>, <<lab, w(":")>>, <<w("GoTo"), lab, w(";")>>,
  <<w("("), id, w("="), num, w(")"), w(";")>>, <<w(";")>>,
  if1 \o <<w("EndIf"), w(";")>>, if1 \o a1 \o <<w("EndIf"), w(";")>>, if1 \o a1 \o <<w("Else")>> \o a1 \o <<w("EndIf"), w(";")>>,
  if1 \o a1 \o <<w("ElseIf"), id, w("Then")>> \o a1 \o <<w("ElseIf"), id, w("Then")>> \o a1 \o <<w("EndIf"), w(";")>>,
  if1 \o <<w("ElseIf"), id, w("Then"), w("Else"), w("EndIf"), w(";")>>,
  <<w("While"), id, w("Loop"), w("EndLoop"), w(";")>>, <<w("While"), id, w("Loop")>> \o a1 \o <<w("EndLoop"), w(";")>>,
  <<w("For"), id, w("="), num, w("To"), num, w("Loop"), w("Continue"), w(";"), w("EndLoop"), w(";")>>,
  <<w("For"), w("Each"), id, w("In"), id, w("Loop"), w("Break"), w("EndLoop"), w(";")>>,
  <<w("Try"), w("Catch"), w("EndTry"), w(";")>>, <<w("Try")>> \o a1 \o <<w("Catch"), w("Throw"), w(";"), w("EndTry"), w(";")>>
}
P_KindsS == {p \in P_Kinds : Len(p) < 7}

(* Random walks through everything.                                        *)
opens == {b \in blks : Len(b) < 8}
closers == {<<w("EndIf"), w(";")>>, <<w("EndLoop"), w(";")>>, <<w("EndTry"), w(";")>>, <<w("EndProcedure")>>, <<w("EndFunction")>>,
            <<w("Else")>>, <<w("Catch")>>, <<w("ElseIf"), id, w("Then")>>}
P_Walk == P_Prog \cup P_Kinds \cup opens \cup closers
G_Walk == {stmt1, heads, decls, opens, P_KindsS, P_Kinds, {<<w("Break"), w(";")>>, <<w("Continue"), w(";")>>, <<w("Throw"), w(";")>>, <<w("Return"), w(";")>>}}
          \cup {{c} : c \in closers}
G_Struct == {opens, P_KindsS, P_Kinds, {<<w("Break"), w(";")>>, <<w("Continue"), w(";")>>, <<w("Throw"), w(";")>>, <<w("Return"), w(";")>>},
             {p \in decls : p[1][1] \in {"Procedure", "Function", "DIR"} /\ p[2][1] # "Var"}}
            \cup {{c} : c \in closers}
(* Starts and statements of programs to be edited.                         *)
S_Ed == {<<>>, if1 \o <<w("ElseIf"), id, w("Then"), w("Else")>>, <<w("While"), id, w("Loop")>>, <<w("For"), w("Each"), id, w("In"), id, w("Loop")>>,
         <<w("For"), id, w("="), num, w("To"), num, w("Loop")>>, <<w("Try")>> \o a1 \o <<w("Catch")>>,
         <<d("d2"), w("Function"), id, w("("), id, w(","), w("Val"), id, w("="), num, w(")"), w("Export"), w("Var"), id, w(","), id, w(";"), w("Var"), id, w(";")>>,
         <<w("Var"), id, w(","), id, w("Export"), w(";"), w("Procedure"), id, w("("), id, w("="), str, w(")")>>,
         <<w("Procedure"), id, w("("), w(")"), w("EndProcedure"), w("Function"), id, w("("), w(")"), w("Export"), w("Return"), id, w(";"), w("EndFunction")>>}
P_Ed == P_Kinds \cup {<<id, w("=")>> \o e \o <<w(";")>> : e \in {x \in exprs : Len(x) > 3}}
(* Every beginning of every statement, block and declaration.              *)
S_Prefix == LET all == UNION {{SubSeq(p, 1, i) : i \in 1..Len(p)} : p \in
                  stmt1 \cup {h \in heads : h[1][1] # "ElseIf"} \cup decls \cup blks \cup P_Kinds \cup S_Ed \cup {if1 \o h : h \in {x \in heads : x[1][1] = "ElseIf"}}}
            IN {p \in all : Run(Init0, p).status = "ok"}
P_CtxAll == P_CtxLoop \cup P_CtxCatch
=============================================================================
