------------------------------- MODULE Corpus -------------------------------
(***************************************************************************)
(* Real modules, read by the machines: what they are, and what they become *)
(* with a small change somewhere.                                          *)
(***************************************************************************)
EXTENDS SourceProfiles

CONSTANTS From, Every     \* which of the texts
Texts == JsonDeserialize("modules.json")

InitC == /\ \E i \in {j \in 1..Len(Texts) : j % Every = From} : wd = <<i>>
         /\ Begin(<<>>)
(* neighbouring procedures make a module                                    *)
NextC == /\ k < MaxK /\ wd[1] + k <= Len(Texts)
         /\ Append1(Texts[wd[1] + k] \o <<NL>>)
         /\ k' = k + 1
         /\ UNCHANGED wd
GoodC == k = 0 \/ Say(text)
GoodCX == k = 0 \/ Changes(text, EndOfText(lx).toks, MaxDev)
=============================================================================
