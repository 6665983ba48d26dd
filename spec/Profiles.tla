------------------------------ MODULE Profiles ------------------------------
(* The explorations of the language machine.                               *)
EXTENDS BslGen, Phrases
-----------------------------------------------------------------------------
(* expressions repeated behind an operator, a sign, a bracket              *)
S_PumpOp == {<<id, w("="), id, w("+")>>, <<id, w("="), w("-"), id, w("*")>>, <<w("If"), id, w("Or")>>, <<id, w("="), w("Not"), id, w("<")>>,
             <<id, w("("), id, w("=")>>, <<id, w("="), id, w("["), num, w("-")>>, <<w("Function"), id, w("("), w(")"), w("Return"), w("("), id, w("-")>>}
P_PumpOp == {p \in P_NestExpr : Len(p) < 4} \cup {<<w("("), id, w(o)>> : o \in {"+", "-", "And", "="}} \cup {<<w("("), w("Not")>>, <<w("("), w("-")>>,
             <<w("Not"), w("("), id, w("And")>>, <<id, w("-"), w("(")>>, <<id, w("Or"), w("Not"), w("(")>>, <<id, w("."), id, w("("), id, w(",")>>,
             <<w("?"), w("("), id, w(","), id, w(",")>>, <<id, w("*")>>, <<id, w("And"), w("Not")>>}
P_Exprs0 == {<<w("*"), id>>, <<w("*"), w("("), id, w("%")>>, <<w("<"), id>>}
S_Pump == S_Ctx1 \cup S_Expr \cup S_Assign \cup {<<>>} \cup S_Ref \cup S_Param
  \cup {<<id, w("="), id>>, <<id, w("="), w("Not")>>, <<id, w("("), id>>, <<id, w("="), w("New"), id, w("("), id>>,
        <<w("Var"), id>>, <<w("Procedure"), id, w("("), id>>, <<w("If"), id, w("Then")>>, <<w("If"), id, w("Then"), id, w("="), num, w(";")>>}
S_PumpQ == S_Expr \cup S_Assign \cup bases \cup S_Param
  \cup {<<id, w("="), id>>, <<id, w("="), w("Not")>>, <<id, w("("), id>>, <<id, w("="), w("New"), id, w("("), id>>,
        <<w("Var"), id>>, <<w("Procedure"), id, w("("), id>>, if1, if1 \o a1, <<w("Try"), w("Catch")>>, <<w("For"), w("Each"), id, w("In"), id, w("Loop")>>}
P_Pump == {p \in P_Kinds : Len(p) < 12} \cup {p \in blks : Len(p) < 12} \cup P_Exprs0 \cup P_Nest \cup P_NestExpr
  \cup {<<w(",")>>, <<w(","), id>>, <<w("."), id>>, <<w("."), id, w("("), w(")")>>, <<w("["), id, w("]")>>, <<w("("), w(")")>>,
        <<w("+"), id>>, <<w("And"), w("Not"), id>>, <<w("="), w("-"), id>>, <<w("Or"), w("("), id, w("*")>>, <<w(";")>>,
        <<w("-")>>, <<w("Not")>>, <<w("+")>>, <<w("("), w("-")>>, <<w("Not"), w("(")>>, <<w("ElseIf"), id, w("Then")>>, <<w("ElseIf"), id, w("Then"), id, w("="), num, w(";")>>,
        <<w("Procedure"), id, w("("), w(")"), w("EndProcedure")>>, <<w("Function"), id, w("("), id, w(")"), w("Export"), w("Return"), id, w(";"), w("EndFunction")>>,
        <<w("Val"), id, w(",")>>, <<id, w("="), num, w(",")>>, <<id, w("(")>>, <<id, w("("), num, w(",")>>, <<w("New"), id, w("(")>>, <<w("New"), id, w("("), w(",")>>,
        <<w("?"), w("(")>>, <<w("?"), w("("), id, w(","), id, w(",")>>, <<w("?"), w("("), id, w(",")>>, <<id, w("["), id, w("(")>>, <<w("Execute"), w("(")>>,
        <<id, w("."), id, w("("), id, w(")"), w("[")>>, <<w("("), id, w("=")>>}

-----------------------------------------------------------------------------
(* Long programs with their trees (Reps of BslGen): any of these phrases,    *)
(* many times, then others behind it.                                      *)
R_None == {}
R_Long == {1, 12, 40, 90, 150, 260}
R_Short == {1, 2, 12, 30}
R_Longer == {1, 40, 150, 260, 600, 1100}
R_Loops == {1, 3, 64, 256, 300}
R_List == {1, 7}
R_Names == {1, 9, 17, 33, 70}
(* Deep ones: constructs within constructs.                                  *)
R_Deep == {300}
R_Deeper == {64, 300, 700}
S_Deep == {<<>>, <<w("Function"), id, w("("), w(")"), w("Try"), w("Catch")>>, <<w("If"), id, w("Then"), w("ElseIf"), id, w("Then")>>,
           <<id, w("("), id, w(",")>>, <<w("If")>>, <<w("Procedure"), id, w("("), w(")"), w("If"), id, w("Then"), id, w("="), num, w(";"), w("Else")>>}
P_Deep == {<<w("While"), id, w("Loop")>>, <<w("For"), w("Each"), id, w("In"), id, w("Loop"), id, w("("), w(")"), w(";")>>,
           <<w("For"), id, w("="), num, w("To"), id, w("Loop")>>, <<w("If"), id, w("Then")>>, <<w("If"), id, w("Then"), w("Else")>>,
           <<w("If"), id, w("Then"), w("ElseIf"), id, w("Then")>>, <<w("Try")>>, <<w("Try"), w("Catch")>>,
           <<id, w("(")>>, <<id, w("("), id, w(",")>>, <<w("("), id, w("-")>>, <<w("Not"), w("("), w("-")>>, <<w("?"), w("("), id, w(","), id, w(",")>>, <<w("?"), w("(")>>,
           <<w("New"), id, w("(")>>, <<id, w("["), num, w("-")>>, <<id, w("."), id, w("(")>>,
           <<w("Else"), w("If"), id, w("Then")>>, <<id, w("-"), id, w("*")>>, <<w("+"), id>>, <<w("."), id, w("("), w(")")>>, <<w("["), id, w("]")>>}
S_LongQ == S_PumpQ \cup S_Ctx1
G_Long == {{p \in P_Kinds : Len(p) < 12}, {p \in blks : Len(p) < 12}, P_Exprs0 \cup P_NestExpr, P_Nest, P_Pump, P_Pump} \cup {{c} : c \in closers}
P_Loops == {<<w("While"), id, w("Loop")>>, <<w("For"), w("Each"), id, w("In"), id, w("Loop")>>, <<w("EndLoop"), w(";")>>,
            <<w("Break"), w(";")>>, <<w("Continue"), w(";")>>}
P_Tries == {<<w("Try")>>, <<w("Catch")>>, <<w("EndTry"), w(";")>>, <<w("Throw"), w(";")>>, <<w("Return"), id, w(";")>>}
(* one list of variables, piece by piece                                   *)
S_VarList == {<<w("Var"), id>>, <<w("Var"), n("a")>>, <<w("Var"), id, w(";"), w("Var"), n("b")>>, <<w("Procedure"), id, w("("), w(")"), w("Var"), id>>,
              <<w("Function"), id, w("("), n("a"), w(")"), w("Var"), n("a")>>, <<d("d1"), w("Var"), n("a")>>}
P_VarList == {<<w(","), id>>, <<w(","), n("a")>>, <<w(","), n("^a")>>, <<w(","), n("b")>>, <<w("Export")>>, <<w(";"), w("Var"), n("^b")>>, <<w(";"), w("Var"), id>>, <<w(";")>>}
P_ManyVars == {<<w("Var"), id, w(";")>>, <<w("Var"), n("a"), w(";")>>, <<w("Var"), n("^a"), w(";")>>, <<w("Var"), n("b"), w(","), id, w(","), n("^b"), w(";")>>,
               <<w("Procedure"), id, w("("), w(")")>>, <<w("EndProcedure")>>}
=============================================================================
