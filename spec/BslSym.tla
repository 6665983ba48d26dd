------------------------------- MODULE BslSym -------------------------------
(***************************************************************************)
(* Trees whose values are tokens of a text (<<number, folded name>>) with  *)
(* the numbers written as symbols, so that the functions on symbolic trees *)
(* (BslTree, BslWalk, BslJson, BslLines) apply to them.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

(* "", the name of a keyword ("@Execute") and symbols stay as they are      *)
IsString(v) == SubSeq(ToString(v), 1, 1) = "\""
Sy(v) == IF IsString(v) THEN v ELSE "#" \o ToString(v[1])

RECURSIVE Sym(_)
SymAll(s) == <<>> \o [i \in 1..Len(s) |-> Sym(s[i])]
Sym(n) ==
  CASE n[1] \in {"nil", "bool", "undef", "break", "continue"} -> n
    [] n[1] = "num" -> <<n[1], n[2], Sy(n[3])>>
    [] n[1] \in {"var", "str", "date", "label", "goto"} -> <<n[1], Sy(n[2])>>
    [] n[1] \in {"neg", "not", "return", "throw"} -> <<n[1], Sym(n[2])>>
    [] n[1] = "par" -> <<n[1], SymAll(n[2])>>
    [] n[1] = "bin" -> <<n[1], n[2], Sym(n[3]), Sym(n[4])>>
    [] n[1] \in {"chain", "idx", "assign"} -> <<n[1], Sym(n[2]), Sym(n[3])>>
    [] n[1] \in {"call", "new"} -> <<n[1], Sy(n[2]), SymAll(n[3])>>
    [] n[1] = "tern" -> <<n[1], Sym(n[2]), Sym(n[3]), Sym(n[4])>>
    [] n[1] = "if" -> <<n[1], <<>> \o [i \in 1..Len(n[2]) |-> <<Sym(n[2][i][1]), SymAll(n[2][i][2])>>], SymAll(n[3])>>
    [] n[1] = "foreach" -> <<n[1], Sy(n[2]), Sym(n[3]), SymAll(n[4])>>
    [] n[1] = "for" -> <<n[1], Sym(n[2]), Sym(n[3]), SymAll(n[4])>>
    [] n[1] = "while" -> <<n[1], Sym(n[2]), SymAll(n[3])>>
    [] n[1] = "try" -> <<n[1], SymAll(n[2]), SymAll(n[3])>>
    [] n[1] = "func" -> <<n[1], n[2], Sy(n[3]), Sy(n[4]), n[5],
                          <<>> \o [i \in 1..Len(n[6]) |-> <<Sy(n[6][i][1]), n[6][i][2], Sym(n[6][i][3])>>],
                          <<>> \o [i \in 1..Len(n[7]) |-> Sy(n[7][i])], SymAll(n[8])>>
SymGlobals(g) == <<>> \o [i \in 1..Len(g) |-> <<Sy(g[i][1]), Sy(g[i][2]), g[i][3]>>]
=============================================================================
