-------------------------------- MODULE Bsl --------------------------------
(***************************************************************************)
(* The 1C (BSL) language accepted by 1c-language-parser, as an explicit    *)
(* token-driven state machine.                                             *)
(*                                                                         *)
(* The machine is written from the language (README, grammar.y rules, the  *)
(* existing tests), not from the LALR tables in y.go: it is a stack of     *)
(* open constructs ("frames"), one token is consumed per step, and the     *)
(* abstract syntax tree is built as constructs close.  It decides          *)
(*   - acceptance, and the exact index of the first offending token,       *)
(*   - the context rules (loop / catch / function / declaration order),    *)
(*   - the tree a correct parser must deliver.                             *)
(*                                                                         *)
(* Tokens are pairs <<kind, value>>.  Tree nodes are tuples whose first    *)
(* element is a tag.  See DESIGN.md for the vocabulary.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Nil == <<"nil">>

Kd(t) == t[1]
Vl(t) == t[2]

Keywords == { "Procedure", "Function", "EndProcedure", "EndFunction", "Var",
  "Export", "Val", "If", "Then", "ElseIf", "Else", "EndIf", "For", "Each",
  "In", "To", "While", "Loop", "EndLoop", "Break", "Continue", "Try", "Catch",
  "EndTry", "Throw", "Return", "New", "GoTo", "Execute", "True", "False",
  "Undef", "Not", "And", "Or" }

BinOps == { "+", "-", "*", "/", "%", "=", "<>", "<", ">", "<=", ">=", "And", "Or" }

(* The one precedence table of the language: ИЛИ < И < НЕ < comparisons    *)
(* < additive < multiplicative < unary sign; binary operators associate    *)
(* to the left.                                                            *)
Prec(op) ==
  CASE op = "Or" -> 1
    [] op = "And" -> 2
    [] op = "not" -> 3
    [] op \in {"=", "<>", "<", ">", "<=", ">="} -> 4
    [] op \in {"+", "-"} -> 5
    [] op \in {"*", "/", "%"} -> 6
    [] op \in {"u-", "u+"} -> 7

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

-----------------------------------------------------------------------------
(* Signs and negation.  A number absorbs the minus and a boolean the НЕ;   *)
(* two equal operators in a row cancel; anything else is wrapped, operands  *)
(* that have no room for the operator (literals, Новый, a negation under a  *)
(* minus) in parentheses.                                                   *)

Bare == {"str", "date", "undef", "new"}
Par(n) == <<"par", <<n>>>>

Neg(n) ==
  CASE n[1] = "num" -> <<"num", 1 - n[2], n[3]>>
    [] n[1] = "neg" -> n[2]
    [] n[1] \in Bare \cup {"bool", "not"} -> <<"neg", Par(n)>>
    [] OTHER -> <<"neg", n>>

Not(n) ==
  CASE n[1] = "bool" -> <<"bool", IF n[2] = "T" THEN "F" ELSE "T">>
    [] n[1] = "not" -> n[2]
    [] n[1] \in Bare \cup {"num"} -> <<"not", Par(n)>>
    [] OTHER -> <<"not", n>>

-----------------------------------------------------------------------------
(* Frames.                                                                 *)

ExF(mode, opt) ==
  [f |-> "ex", mode |-> mode, opt |-> opt, ops |-> <<>>, vals |-> <<>>,
   s |-> "O", pre |-> Nil, cur |-> Nil, tail |-> ""]

Blk(kind, hd) == [f |-> "blk", kind |-> kind, hd |-> hd, body |-> <<>>, s |-> "S"]

ModF == [f |-> "blk", kind |-> "mod", hd |-> [g |-> <<>>], body |-> <<>>, s |-> "D"]

Init0 == [stk |-> <<ModF>>, status |-> "ok", at |-> 0, n |-> 0, sem |-> <<>>]

Top(st) == Last(st.stk)
Push(st, fr) == [st EXCEPT !.stk = Append(@, fr)]
Pop(st) == [st EXCEPT !.stk = Front(@)]
Repl(st, fr) == [st EXCEPT !.stk = Append(Front(@), fr)]
Err(st) == [st EXCEPT !.status = "syn", !.at = st.n]
Sem(st, e) == [st EXCEPT !.sem = Append(@, <<e, st.n>>)]

InLoop(st) == \E i \in 1..Len(st.stk) :
                 st.stk[i].f = "blk" /\ st.stk[i].kind = "loop"
InCatch(st) == \E i \in 1..Len(st.stk) :
                 st.stk[i].f = "blk" /\ st.stk[i].kind = "catch"
InFunc(st) == \E i \in 1..Len(st.stk) :
                 st.stk[i].f = "blk" /\ st.stk[i].kind = "fn" /\ st.stk[i].hd.k = "Function"

(* A finished statement goes to the block on top.                          *)
AddStmt(st, node) ==
  Repl(st, [Top(st) EXCEPT !.body = Append(@, node), !.s = "A"])

-----------------------------------------------------------------------------
(* Expressions: operator-precedence with explicit operand/operator stacks. *)

CurVal(fr) == IF fr.pre[1] = "nil" THEN fr.cur ELSE <<"chain", fr.pre, fr.cur>>

Apply(op, vals) ==
  LET v == Last(vals) r == Front(vals) IN
  CASE op = "u-"  -> Append(r, Neg(v))
    [] op = "u+"  -> vals
    [] op = "not" -> Append(r, Not(v))
    [] OTHER      -> Append(Front(r), <<"bin", op, Last(r), v>>)

RECURSIVE Red(_, _, _)     \* reduce while the top operator binds at least as tight as p
Red(ops, vals, p) ==
  IF ops # <<>> /\ Prec(Last(ops)) >= p
  THEN Red(Front(ops), Apply(Last(ops), vals), p)
  ELSE <<ops, vals>>

ExValue(fr) == Last(Red(fr.ops, Append(fr.vals, CurVal(fr)), 0)[2])
Operand(fr, node, tail) == [fr EXCEPT !.cur = node, !.tail = tail, !.s = "A"]

ArgsF(for, name) == [f |-> "args", for |-> for, name |-> name, list |-> <<>>]

(* Hand the value of a finished expression to the frame beneath it.  The   *)
(* expression frame has already been popped.                               *)
Deliver(st, v) ==
  LET fr == Top(st) IN
  CASE fr.f = "args" -> Repl(st, [fr EXCEPT !.list = Append(@, v)])
    [] fr.f = "tern" -> Repl(st, [fr EXCEPT !.vs = Append(@, v)])
    [] fr.f \in {"idx", "exec1", "lepar", "cond"} -> Repl(st, [fr EXCEPT !.v = v])
    [] fr.f = "blk"  -> AddStmt(st, v)
    [] fr.f = "asg"  -> AddStmt(Pop(st), <<"assign", fr.lhs, v>>)
    [] fr.f = "ret"  ->
         LET s1 == AddStmt(Pop(st), <<"return", v>>) IN
         IF v # Nil /\ ~InFunc(st) THEN Sem(s1, "return") ELSE s1
    [] fr.f = "throw" ->
         LET s1 == AddStmt(Pop(st), <<"throw", v>>) IN
         IF v = Nil /\ ~InCatch(st) THEN Sem(s1, "throw") ELSE s1

(* ")" closes an argument list: the node becomes the operand of the        *)
(* expression frame beneath.  Parentheses hold one value; only those right *)
(* after ВызватьИсключение hold more, and then they are its parameter.     *)
ThrowList(st) ==
  LET fr == st.stk[Len(st.stk) - 1] IN
  st.stk[Len(st.stk) - 2].f = "throw" /\ fr.ops = <<>> /\ fr.vals = <<>>

CloseArgs(st) ==
  LET a == Top(st)
      s1 == Pop(st)
      fr == Top(s1)
      args == a.list
  IN CASE a.for = "call" -> Repl(s1, Operand(fr, <<"call", a.name, args>>, "td"))
       [] a.for = "new"  -> Repl(s1, Operand(fr, <<"new", a.name, args>>, "lit"))
       [] a.for = "par" /\ Len(args) = 1 -> Repl(s1, Operand(fr, <<"par", args>>, "lit"))
       [] a.for = "par" /\ Len(args) > 1 -> Deliver(Pop(s1), <<"par", args>>)

-----------------------------------------------------------------------------
RECURSIVE Disp(_, _)

(* An expression that cannot go on with this token is finished; the token  *)
(* is then offered to whatever encloses it.                                *)
Finish(st, t) ==
  LET fr == Top(st) IN
  IF fr.s = "A" THEN Disp(Deliver(Pop(st), ExValue(fr)), t)
  ELSE IF fr.s = "O" /\ fr.opt /\ fr.ops = <<>> /\ fr.vals = <<>>
       THEN Disp(Deliver(Pop(st), Nil), t)
       ELSE Err(st)

ExOperand(st, fr, t) ==       \* an operand is expected
  LET k == Kd(t)
      free == fr.mode \in {"e", "asg"}
  IN CASE k = "ID" /\ (free \/ fr.mode = "le") -> Repl(st, Operand(fr, <<"var", Vl(t)>>, "id"))
       [] k = "NUM" /\ free   -> Repl(st, Operand(fr, <<"num", 0, Vl(t)>>, "lit"))
       [] k = "STR" /\ free   -> Repl(st, Operand(fr, <<"str", Vl(t)>>, "lit"))
       [] k = "DATE" /\ free  -> Repl(st, Operand(fr, <<"date", Vl(t)>>, "lit"))
       [] k = "True" /\ free  -> Repl(st, Operand(fr, <<"bool", "T">>, "lit"))
       [] k = "False" /\ free -> Repl(st, Operand(fr, <<"bool", "F">>, "lit"))
       [] k = "Undef" /\ free -> Repl(st, Operand(fr, <<"undef">>, "lit"))
       [] k = "-" /\ free     -> Repl(st, [fr EXCEPT !.ops = Append(@, "u-")])
       [] k = "+" /\ free     -> Repl(st, [fr EXCEPT !.ops = Append(@, "u+")])
       [] k = "Not" /\ free  -> Repl(st, [fr EXCEPT !.ops = Append(@, "not")])
       [] k = "(" /\ free    -> Push(Push(st, ArgsF("par", "")), ExF("e", FALSE))
       [] k = "(" /\ fr.mode = "le" -> Push(Push(st, [f |-> "lepar", v |-> Nil]), ExF("ln", FALSE))
       [] k = "?" /\ (free \/ fr.mode = "le") -> Repl(st, [fr EXCEPT !.s = "Q"])
       [] k = "New" /\ (free \/ fr.mode \in {"le", "ln"}) -> Repl(st, [fr EXCEPT !.s = "N"])
       [] k = "Execute" /\ (free \/ fr.mode = "le") -> Repl(st, [fr EXCEPT !.s = "X"])
       [] OTHER -> Finish(st, t)

BinOp(st, fr, t) ==           \* a binary operator after a complete operand
  LET k == Kd(t)
      vals == Append(fr.vals, CurVal(fr))
      r == Red(fr.ops, vals, Prec(k))
  IN IF fr.mode \in {"le", "ln"} THEN Finish(st, t)
     ELSE IF fr.mode = "asg" /\ k = "=" /\ fr.ops = <<>> /\ fr.vals = <<>> /\ fr.tail \in {"id", "td"}
          THEN Push(Repl(st, [f |-> "asg", lhs |-> CurVal(fr)]), ExF("e", FALSE))
     ELSE Repl(st, [fr EXCEPT !.ops = Append(r[1], k), !.vals = r[2], !.s = "O",
                              !.pre = Nil, !.cur = Nil, !.tail = ""])

ExAfter(st, fr, t) ==         \* an operand is complete
  LET k == Kd(t) IN
  CASE k = "(" /\ fr.tail = "id"  -> Push(Push(st, ArgsF("call", fr.cur[2])), ExF("e", TRUE))
    [] k = "(" /\ fr.tail = "new" -> Push(Push(st, ArgsF("new", fr.cur[2])), ExF("e", TRUE))
    [] k = "[" /\ fr.tail \in {"id", "td"} -> Push(Push(st, [f |-> "idx", v |-> Nil]), ExF("e", FALSE))
    [] k = "." /\ fr.tail \in {"id", "td"} -> Repl(st, [fr EXCEPT !.pre = CurVal(fr), !.s = "D"])
    [] k \in BinOps -> BinOp(st, fr, t)
    [] OTHER -> Finish(st, t)

DispEx(st, t) ==
  LET fr == Top(st) k == Kd(t) IN
  CASE fr.s = "O" -> ExOperand(st, fr, t)
    [] fr.s = "A" -> ExAfter(st, fr, t)
    [] fr.s = "D" ->          \* after a dot every word is a plain name
         IF k = "ID" THEN Repl(st, Operand(fr, <<"var", Vl(t)>>, "id"))
         ELSE IF k \in Keywords THEN Repl(st, Operand(fr, <<"var", "@" \o k>>, "id"))
         ELSE Err(st)
    [] fr.s = "Q" -> IF k = "(" THEN Push(Push(st, [f |-> "tern", vs |-> <<>>]), ExF("e", FALSE)) ELSE Err(st)
    [] fr.s = "N" -> IF k = "ID" THEN Repl(st, Operand(fr, <<"new", Vl(t), <<>>>>, "new"))
                     ELSE IF k = "(" THEN Push(Push(st, ArgsF("new", "")), ExF("e", TRUE))
                     ELSE Err(st)
    [] fr.s = "X" -> IF k = "STR" THEN Repl(st, Operand(fr, <<"call", "@Execute", <<<<"str", Vl(t)>>>>>>, "td"))
                     ELSE IF k = "ID" THEN Repl(st, Operand(fr, <<"call", "@Execute", <<<<"var", Vl(t)>>>>>>, "td"))
                     ELSE IF k = "(" THEN Push(Push(st, [f |-> "exec1", v |-> Nil]), ExF("e", FALSE))
                     ELSE Err(st)

DispArgs(st, t) ==
  LET k == Kd(t) IN
  IF k = "," /\ (Top(st).for # "par" \/ ThrowList(st)) THEN Push(st, ExF("e", TRUE))
  ELSE IF k = ")" THEN CloseArgs(st)
  ELSE Err(st)

DispIdx(st, t) ==
  LET fr == Top(st) s1 == Pop(st) e == Top(s1) IN
  IF Kd(t) = "]" THEN Repl(s1, Operand(e, <<"idx", e.cur, fr.v>>, "td")) ELSE Err(st)

DispExec1(st, t) ==
  LET fr == Top(st) s1 == Pop(st) e == Top(s1) IN
  IF Kd(t) = ")" THEN Repl(s1, Operand(e, <<"call", "@Execute", <<fr.v>>>>, "td")) ELSE Err(st)

DispLepar(st, t) ==
  LET fr == Top(st) s1 == Pop(st) e == Top(s1) IN
  IF Kd(t) = ")" THEN Repl(s1, Operand(e, fr.v, "lit")) ELSE Err(st)

DispTern(st, t) ==
  LET fr == Top(st) s1 == Pop(st) e == Top(s1) k == Kd(t) IN
  IF Len(fr.vs) < 3 /\ k = "," THEN Push(st, ExF("e", FALSE))
  ELSE IF Len(fr.vs) = 3 /\ k = ")" THEN Repl(s1, Operand(e, <<"tern", fr.vs[1], fr.vs[2], fr.vs[3]>>, "lit"))
  ELSE Err(st)

-----------------------------------------------------------------------------
(* Headers of compound statements.                                         *)

CondF(what, acc) == [f |-> "cond", what |-> what, acc |-> acc, v |-> Nil]

DispCond(st, t) ==
  LET fr == Top(st) k == Kd(t) IN
  CASE fr.what = "if" /\ k = "Then" ->
         Repl(st, Blk("if", [br |-> fr.acc, c |-> fr.v]))
    [] fr.what = "while" /\ k = "Loop" -> Repl(st, Blk("loop", <<"while", fr.v>>))
    [] fr.what = "for1" /\ k = "To" ->
         Push(Repl(st, CondF("for2", <<fr.v>>)), ExF("e", FALSE))
    [] fr.what = "for2" /\ k = "Loop" -> Repl(st, Blk("loop", <<"for", fr.acc[1], fr.v>>))
    [] fr.what = "foreach" /\ k = "Loop" -> Repl(st, Blk("loop", <<"foreach", fr.acc[1], fr.v>>))
    [] OTHER -> Err(st)

DispFor0(st, t) ==            \* just after "For"
  IF Kd(t) = "Each" THEN Repl(st, [f |-> "fe", s |-> "id", id |-> ""])
  ELSE Disp(Push(Repl(st, CondF("for1", <<>>)), ExF("e", FALSE)), t)

DispFe(st, t) ==
  LET fr == Top(st) k == Kd(t) IN
  CASE fr.s = "id" /\ k = "ID" -> Repl(st, [fr EXCEPT !.id = Vl(t), !.s = "in"])
    [] fr.s = "in" /\ k = "In" -> Push(Repl(st, CondF("foreach", <<fr.id>>)), ExF("le", FALSE))
    [] OTHER -> Err(st)

-----------------------------------------------------------------------------
(* Blocks.                                                                 *)

CloseIf(st, fr) ==
  AddStmt(Pop(st), IF fr.kind = "else" THEN <<"if", fr.hd.br, fr.body>>
                   ELSE <<"if", Append(fr.hd.br, <<fr.hd.c, fr.body>>), <<>>>>)

Separator(st, fr, t) ==
  LET s1 == Repl(st, [fr EXCEPT !.s = "S"]) IN
  IF Kd(t) = ";" THEN s1
  ELSE IF fr.body = <<>> \/ Last(fr.body)[1] # "label" THEN Sem(s1, "colon")
  ELSE s1

Simple(st, node) == AddStmt(st, node)

StartStmt(st, fr, t) ==
  LET k == Kd(t) IN
  CASE k = "If"       -> Push(Push(st, CondF("if", <<>>)), ExF("e", FALSE))
    [] k = "While"    -> Push(Push(st, CondF("while", <<>>)), ExF("e", FALSE))
    [] k = "For"      -> Push(st, [f |-> "for0"])
    [] k = "Try"      -> Push(st, Blk("try", <<>>))
    [] k = "Break"    -> IF InLoop(st) THEN AddStmt(st, <<"break">>)
                         ELSE Sem(AddStmt(st, <<"break">>), "break")
    [] k = "Continue" -> IF InLoop(st) THEN AddStmt(st, <<"continue">>)
                         ELSE Sem(AddStmt(st, <<"continue">>), "continue")
    [] k = "LABEL"    -> AddStmt(st, <<"label", Vl(t)>>)
    [] k = "GoTo"     -> Push(st, [f |-> "goto"])
    [] k = "Return"   -> Push(Push(st, [f |-> "ret"]), ExF("e", TRUE))
    [] k = "Throw"    -> Push(Push(st, [f |-> "throw"]), ExF("e", TRUE))
    [] OTHER          -> Disp(Push(st, ExF("asg", FALSE)), t)

EndFn(k) == IF k = "Function" THEN "EndFunction" ELSE "EndProcedure"

FnNode(fr) == <<"func", fr.hd.k, fr.hd.name, fr.hd.dir, fr.hd.exp, fr.hd.params, fr.hd.locals, fr.body>>

FhF(k, s, dir) == [f |-> "fh", k |-> k, s |-> s, dir |-> dir, name |-> "", params |-> <<>>,
                   p |-> <<"", FALSE, Nil>>, exp |-> FALSE, locals |-> <<>>]
GvF(dir) == [f |-> "gv", s |-> "vi", dir |-> dir, ids |-> <<>>, exp |-> FALSE]

DispDecl(st, fr, t) ==        \* the declaration part of the module
  LET k == Kd(t) IN
  CASE k = "DIR" -> Push(st, FhF("", "dir", Vl(t)))
    [] k = "Var" -> Push(st, GvF(""))
    [] k \in {"Function", "Procedure"} -> Push(st, FhF(k, "name", ""))
    [] OTHER -> Disp(Repl(st, [fr EXCEPT !.s = "S"]), t)

DispGoto(st, t) ==
  IF Kd(t) = "LABEL" THEN AddStmt(Pop(st), <<"goto", Vl(t)>>) ELSE Err(st)

DispBlk(st, t) ==
  LET fr == Top(st) k == Kd(t) IN
  CASE fr.s = "D" -> DispDecl(st, fr, t)
    [] fr.kind = "mod" /\ k = "EOF" -> [st EXCEPT !.status = "acc"]
    [] fr.kind = "if" /\ k = "ElseIf" ->
         Push(Repl(st, CondF("if", Append(fr.hd.br, <<fr.hd.c, fr.body>>))), ExF("e", FALSE))
    [] fr.kind = "if" /\ k = "Else" ->
         Repl(st, Blk("else", [br |-> Append(fr.hd.br, <<fr.hd.c, fr.body>>), c |-> Nil]))
    [] fr.kind \in {"if", "else"} /\ k = "EndIf" -> CloseIf(st, fr)
    [] fr.kind = "loop" /\ k = "EndLoop" -> AddStmt(Pop(st), Append(fr.hd, fr.body))
    [] fr.kind = "try" /\ k = "Catch" -> Repl(st, Blk("catch", fr.body))
    [] fr.kind = "catch" /\ k = "EndTry" -> AddStmt(Pop(st), <<"try", fr.hd, fr.body>>)
    [] fr.kind = "fn" /\ k = EndFn(fr.hd.k) ->
         LET s1 == Pop(st) IN Repl(s1, [Top(s1) EXCEPT !.body = Append(@, FnNode(fr)), !.s = "D"])
    [] k \in {";", ":"} -> Separator(st, fr, t)
    [] fr.s = "A" -> Err(st)
    [] OTHER -> StartStmt(st, fr, t)

-----------------------------------------------------------------------------
(* Declarations.                                                           *)

(* 1C names are case-insensitive: the model writes the upper-case variant  *)
(* of a name by prefixing it with "^".                                     *)
Fold(v) == IF Len(v) > 0 /\ SubSeq(v, 1, 1) = "^" THEN SubSeq(v, 2, Len(v)) ELSE v

HasDup(s, acc) ==
  \/ \E i, j \in 1..Len(s) : i < j /\ Fold(s[i]) = Fold(s[j])
  \/ \E i \in 1..Len(s) : \E j \in 1..Len(acc) : Fold(s[i]) = Fold(acc[j])

GNames(g) == [i \in 1..Len(g) |-> g[i][1]]

DispGv(st, t) ==
  LET fr == Top(st) k == Kd(t)
      s1 == Pop(st)
      m == Top(s1)
      new == [i \in 1..Len(fr.ids) |-> <<fr.ids[i], fr.dir, fr.exp>>]
      s2 == Repl(s1, [m EXCEPT !.hd.g = @ \o new, !.s = "D"])
  IN CASE fr.s = "vi" /\ k = "ID" -> Repl(st, [fr EXCEPT !.ids = Append(@, Vl(t)), !.s = "vA"])
       [] fr.s = "vA" /\ k = "," -> Repl(st, [fr EXCEPT !.s = "vi"])
       [] fr.s = "vA" /\ k = "Export" -> Repl(st, [fr EXCEPT !.exp = TRUE, !.s = "vE"])
       [] fr.s \in {"vA", "vE"} /\ k = ";" ->
            IF m.body # <<>> THEN Sem(s2, "gvpos")
            ELSE IF HasDup(fr.ids, GNames(m.hd.g)) THEN Sem(s2, "dup")
            ELSE s2
       [] OTHER -> Err(st)

LitNode(t) ==
  LET k == Kd(t) IN
  CASE k = "NUM" -> <<"num", 0, Vl(t)>>
    [] k = "STR" -> <<"str", Vl(t)>>
    [] k = "DATE" -> <<"date", Vl(t)>>
    [] k = "True" -> <<"bool", "T">>
    [] k = "False" -> <<"bool", "F">>
    [] k = "Undef" -> <<"undef">>

LitKinds == {"NUM", "STR", "DATE", "True", "False", "Undef"}

DispFh(st, t) ==
  LET fr == Top(st) k == Kd(t)
      Param(v, byval) == Repl(st, [fr EXCEPT !.p = <<v, byval, Nil>>, !.s = "pA"])
      Commit == [fr EXCEPT !.params = Append(@, fr.p)]
  IN CASE fr.s = "dir" ->
            IF k = "Var" THEN Repl(st, GvF(fr.dir))
            ELSE IF k \in {"Function", "Procedure"} THEN Repl(st, [fr EXCEPT !.k = k, !.s = "name"])
            ELSE Err(st)
       [] fr.s = "name" -> IF k = "ID" THEN Repl(st, [fr EXCEPT !.name = Vl(t), !.s = "lp"]) ELSE Err(st)
       [] fr.s = "lp" -> IF k = "(" THEN Repl(st, [fr EXCEPT !.s = "p0"]) ELSE Err(st)
       [] fr.s \in {"p0", "pN"} ->
            CASE k = "ID" -> Param(Vl(t), FALSE)
              [] k = "Val" -> Repl(st, [fr EXCEPT !.s = "pV"])
              [] k = ")" /\ fr.s = "p0" -> Repl(st, [fr EXCEPT !.s = "ex"])
              [] OTHER -> Err(st)
       [] fr.s = "pV" -> IF k = "ID" THEN Param(Vl(t), TRUE) ELSE Err(st)
       [] fr.s \in {"pA", "pA2"} ->
            CASE k = "," -> Repl(st, [Commit EXCEPT !.s = "pN"])
              [] k = ")" -> Repl(st, [Commit EXCEPT !.s = "ex"])
              [] k = "=" /\ fr.s = "pA" -> Repl(st, [fr EXCEPT !.s = "pD"])
              [] OTHER -> Err(st)
       [] fr.s = "pD" ->
            CASE k \in LitKinds -> Repl(st, [fr EXCEPT !.p = <<@[1], @[2], LitNode(t)>>, !.s = "pA2"])
              [] k \in {"+", "-"} -> Repl(st, [fr EXCEPT !.s = IF k = "-" THEN "pS-" ELSE "pS+"])
              [] OTHER -> Err(st)
       [] fr.s \in {"pS+", "pS-"} ->     \* a signed number
            IF k = "NUM" THEN Repl(st, [fr EXCEPT !.p = <<@[1], @[2], <<"num", IF fr.s = "pS-" THEN 1 ELSE 0, Vl(t)>>>>, !.s = "pA2"])
            ELSE Err(st)
       [] fr.s = "ex" -> IF k = "Export" THEN Repl(st, [fr EXCEPT !.exp = TRUE, !.s = "vs"])
                         ELSE Disp(Repl(st, [fr EXCEPT !.s = "vs"]), t)
       [] fr.s = "vs" ->
            IF k = "Var" THEN Push(Repl(st, [fr EXCEPT !.s = "vs"]), [f |-> "lv", s |-> "vi", ids |-> <<>>])
            ELSE Disp(Repl(st, Blk("fn", [k |-> fr.k, name |-> fr.name, dir |-> fr.dir, exp |-> fr.exp,
                                          params |-> fr.params, locals |-> fr.locals])), t)

DispLv(st, t) ==
  LET fr == Top(st) k == Kd(t)
      s1 == Pop(st)
      h == Top(s1)
      s2 == Repl(s1, [h EXCEPT !.locals = @ \o fr.ids])
  IN CASE fr.s = "vi" /\ k = "ID" -> Repl(st, [fr EXCEPT !.ids = Append(@, Vl(t)), !.s = "vA"])
       [] fr.s = "vA" /\ k = "," -> Repl(st, [fr EXCEPT !.s = "vi"])
       [] fr.s = "vA" /\ k = ";" -> IF HasDup(fr.ids, h.locals) THEN Sem(s2, "dup") ELSE s2
       [] OTHER -> Err(st)

Disp(st, t) ==
  LET f == Top(st).f IN
  CASE f = "ex" -> DispEx(st, t)
    [] f = "args" -> DispArgs(st, t)
    [] f = "idx" -> DispIdx(st, t)
    [] f = "exec1" -> DispExec1(st, t)
    [] f = "lepar" -> DispLepar(st, t)
    [] f = "tern" -> DispTern(st, t)
    [] f = "cond" -> DispCond(st, t)
    [] f = "goto" -> DispGoto(st, t)
    [] f = "for0" -> DispFor0(st, t)
    [] f = "fe" -> DispFe(st, t)
    [] f = "blk" -> DispBlk(st, t)
    [] f = "fh" -> DispFh(st, t)
    [] f = "gv" -> DispGv(st, t)
    [] f = "lv" -> DispLv(st, t)
    [] OTHER -> Err(st)       \* "asg"/"ret"/"throw" are never on top at rest

(* One token.  After the first syntax error nothing more is decided.       *)
Step(st, t) ==
  IF st.status # "ok" THEN st
  ELSE Disp([st EXCEPT !.n = @ + 1], t)

RECURSIVE RunRange(_, _, _, _)
RunRange(st, toks, i, j) ==  \* (by halves, and with a look at the state: see Lex)
  IF i > j \/ st.status # "ok" THEN st
  ELSE IF i = j THEN Step(st, toks[i])
  ELSE LET m == (i + j) \div 2 IN RunRange(RunRange(st, toks, i, m), toks, m + 1, j)
Run(st, toks) == RunRange(st, toks, 1, Len(toks))

EOF == <<"EOF", "">>

(* End of input: an incomplete construct is an error attributed to the     *)
(* last token of the text.                                                 *)
End(st) ==
  IF st.status # "ok" THEN st
  ELSE LET s1 == Disp(st, EOF) IN s1

Module(st) == [g |-> st.stk[1].hd.g, body |-> st.stk[1].body]

-----------------------------------------------------------------------------
(* The completion of a viable prefix: a token that always leads towards    *)
(* acceptance.                                                             *)

BlkClose(fr) ==
  CASE fr.kind \in {"if", "else"} -> "EndIf"
    [] fr.kind = "loop" -> "EndLoop"
    [] fr.kind = "try" -> "Catch"
    [] fr.kind = "catch" -> "EndTry"
    [] fr.kind = "fn" -> EndFn(fr.hd.k)
    [] fr.kind = "mod" -> "EOF"

RECURSIVE CloseTok(_, _)      \* the token frame i is waiting for once its child has delivered
CloseTok(stk, i) ==
  LET fr == stk[i] IN
  CASE fr.f \in {"args", "exec1", "lepar"} -> ")"
    [] fr.f = "idx" -> "]"
    [] fr.f = "tern" -> IF Len(fr.vs) < 2 THEN "," ELSE ")"
    [] fr.f = "cond" -> CASE fr.what = "if" -> "Then"
                          [] fr.what = "for1" -> "To"
                          [] OTHER -> "Loop"
    [] fr.f = "blk" -> BlkClose(fr)
    [] fr.f \in {"asg", "ret", "throw"} -> CloseTok(stk, i - 1)

CompTok(st) ==
  LET fr == Top(st) z == <<"ID", "z">> kw(k) == <<k, "">> IN
  CASE fr.f = "ex" ->
         (CASE fr.s = "O" -> IF fr.mode = "ln" THEN kw("New")
                             ELSE z
            [] fr.s = "A" -> kw(CloseTok(st.stk, Len(st.stk) - 1))
            [] fr.s = "Q" -> kw("(")
            [] OTHER -> z)
    [] fr.f = "for0" -> z
    [] fr.f = "goto" -> <<"LABEL", "z">>
    [] fr.f = "fe" -> IF fr.s = "id" THEN z ELSE kw("In")
    [] fr.f = "blk" -> kw(BlkClose(fr))
    [] fr.f \in {"gv", "lv"} -> IF fr.s = "vi" THEN z ELSE kw(";")
    [] fr.f = "fh" ->
         CASE fr.s = "dir" -> kw("Function")
           [] fr.s \in {"name", "pV", "pN"} -> z
           [] fr.s = "lp" -> kw("(")
           [] fr.s \in {"p0", "pA", "pA2"} -> kw(")")
           [] fr.s \in {"pD", "pS+", "pS-"} -> <<"NUM", "0">>
           [] OTHER -> kw(EndFn(fr.k))

RECURSIVE Completion(_)       \* <<tokens, final state>>
Completion(st) ==
  IF st.status # "ok" THEN <<<<>>, st>>
  ELSE LET t == CompTok(st) IN
       IF t = EOF THEN <<<<>>, Step(st, t)>>
       ELSE LET r == Completion(Step(st, t)) IN <<<<t>> \o r[1], r[2]>>
=============================================================================
