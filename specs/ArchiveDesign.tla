----------------------------- MODULE ArchiveDesign -----------------------------
(* Two callers unpack the same two members. Each member is written elsewhere and     *)
(* renamed into place (InPlace: written in place, in two steps, which breaks Stays).  *)
EXTENDS Archive, TLC, Json
CONSTANTS What, InPlace, P
VARIABLES st, pc, done, aux
vars == <<st, pc, done, aux>>
MInit == st = <<"absent", "absent">> /\ pc = <<0, 0>> /\ done = FALSE /\ aux = <<"run", "run">>
\* pc 0: look for the mark; 1, 2: begin and end of member 1; 3, 4: member 2; 5: set the mark; 6: returned
Step(p) == /\ aux[p] = "run" /\ pc[p] < 6
           /\ CASE pc[p] = 0 -> pc' = [pc EXCEPT ![p] = IF done THEN 6 ELSE 1] /\ UNCHANGED <<st, done>>
                [] pc[p] \in {1, 3} -> pc' = [pc EXCEPT ![p] = pc[p] + 1] /\ (IF InPlace THEN st' = [st EXCEPT ![(pc[p] + 1) \div 2] = "other"] ELSE UNCHANGED st) /\ UNCHANGED done
                [] pc[p] \in {2, 4} -> pc' = [pc EXCEPT ![p] = pc[p] + 1] /\ st' = [st EXCEPT ![pc[p] \div 2] = "whole"] /\ UNCHANGED done
                [] pc[p] = 5 -> pc' = [pc EXCEPT ![p] = 6] /\ done' = TRUE /\ UNCHANGED st
           /\ UNCHANGED aux
Kill(p) == aux[p] = "run" /\ pc[p] < 6 /\ aux' = [aux EXCEPT ![p] = "dead"] /\ UNCHANGED <<st, pc, done>>
MNext == \E p \in 1 .. 2 : Step(p) \/ Kill(p)
Stays == (What = "model" /\ (done \/ \E p \in 1 .. 2 : pc[p] = 6)) => st = <<"whole", "whole">>
\* ---- scenarios
T(p, q, e) == [p |-> p, q |-> q, e |-> e]
Pairs == {<<1, "data/a">>, <<1, "data/b">>, <<1, "data/ab">>, <<1, "">>, <<2, "more/c">>, <<3, "other">>, <<4, "odd">>, <<1, "none">>, <<1, "data/a/">>}
Servers == {"full", "short", "error", "garbage", "corrupt"}
\* histories of calls one after the other
Hist(n) == [1 .. n -> {Call(x[1], x[2], s) : x \in Pairs, s \in {"full", "error"}} \cup {Call(x[1], x[2], s) : x \in {<<1, "data/a">>, <<1, "">>}, s \in Servers}]
Seqn(n) == [k \in 1 .. n |-> T(k, 0, "end")]
\* two overlapping calls, then a third one
Over == {<<Call(1, x, "full"), Call(1, y, s), Call(1, x, "full")>> : x \in {"data/a", ""}, y \in {"data/a", "", "data/b"}, s \in {"full", "short"}}
Plans(n) == {<<T(1, i, "pause"), T(2, j, "pause"), T(1, 0, e), T(2, 0, f), T(3, 0, "end")>> : i \in 0 .. n, j \in 0 .. n, e \in {"end", "kill"}, f \in {"end", "kill"}}
SInit == /\ pc = <<>> /\ done = FALSE
         /\ \/ What = "hist" /\ aux \in Hist(P) /\ st = Seqn(P)
            \/ What = "over" /\ aux \in Over /\ st \in Plans(P)
            \/ What = "kill" /\ aux \in {<<Call(1, x, "full"), Call(1, x, "full")>> : x \in {"data/a", ""}} /\ st \in {<<T(1, q, "pause"), T(1, 0, "kill"), T(2, 0, "end")>> : q \in 0 .. P}
SNext == PrintT(<<"EMIT", ToJson([calls |-> aux, turns |-> st])>>) /\ FALSE /\ UNCHANGED vars
Init == IF What = "model" THEN MInit ELSE SInit
Next == IF What = "model" THEN MNext ELSE SNext
=============================================================================
