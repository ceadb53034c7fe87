------------------------------ MODULE FetchDesign ------------------------------
(* Two callers install the same file; each writes its own temporary file in two     *)
(* chunks and renames it, and can be killed anywhere. With Shared the temporary     *)
(* file is common, which breaks Sound: the temporary files have to be separate.      *)
EXTENDS Fetch, TLC, Json
CONSTANTS What, Shared, P
VARIABLES c, dest, init, tmp, pc, out
No == <<"no">>
vars == <<c, dest, init, tmp, pc, out>>
Cs == {Cfg(k, s, l, h) : k \in {"file", "ensure"}, s \in Servers, l \in BOOLEAN, h \in BOOLEAN}
Few == {Cfg(k, s, l, h) : k \in {"file", "ensure"}, s \in {"full", "short", "wrong", "reset"}, l \in {TRUE}, h \in BOOLEAN}
N(p) == IF Shared THEN 1 ELSE p
Whole(p) == IF c[p].srv = "full" THEN <<"a", "b">> ELSE IF c[p].srv = "wrong" THEN <<"c", "d">> ELSE <<"a">>
Name(t) == CASE t = <<"a", "b">> -> "good" [] t = <<"c", "d">> -> "wrong" [] t = <<"a">> -> "short" [] OTHER -> "other"
MInit == /\ c \in [1 .. 2 -> {x \in Cs : x.srv \in {"full", "short", "wrong", "reset"}}] /\ init \in {"absent", "old"} /\ dest = init
         /\ tmp = <<No, No>> /\ pc = <<"start", "start">> /\ out = <<0, 0>>
Begin(p) == pc[p] = "start" /\ (IF c[p].k = "ensure" /\ dest # "absent" THEN pc' = [pc EXCEPT ![p] = "ok"] /\ UNCHANGED <<c, init, dest, tmp, out>>
            ELSE pc' = [pc EXCEPT ![p] = "open"] /\ tmp' = [tmp EXCEPT ![N(p)] = <<>>] /\ UNCHANGED <<c, init, dest, out>>)
Write(p) == pc[p] = "open" /\ out[p] < Len(Whole(p)) /\ tmp[N(p)] # No /\ out' = [out EXCEPT ![p] = out[p] + 1] /\ tmp' = [tmp EXCEPT ![N(p)] = Append(tmp[N(p)], Whole(p)[out[p] + 1])] /\ UNCHANGED <<c, init, dest, pc>>
Finish(p) == pc[p] = "open" /\ out[p] = Len(Whole(p)) /\ tmp[N(p)] # No
             /\ (IF Accepted(c[p]) THEN dest' = Name(tmp[N(p)]) /\ pc' = [pc EXCEPT ![p] = "ok"] ELSE pc' = [pc EXCEPT ![p] = "error"] /\ UNCHANGED dest)
             /\ tmp' = [tmp EXCEPT ![N(p)] = No] /\ UNCHANGED <<c, init, out>>
Kill(p) == pc[p] \in {"start", "open"} /\ pc' = [pc EXCEPT ![p] = "killed"] /\ UNCHANGED <<c, init, dest, tmp, out>>
MNext == \E p \in 1 .. 2 : Begin(p) \/ Write(p) \/ Finish(p) \/ Kill(p)
\* what stands under the name was accepted as a whole; a caller that returned has it
Sound == What = "model" => (dest \in Possible(init, c) /\ \A p \in 1 .. 2 : pc[p] = "ok" => dest # "absent" /\ (c[p].k = "file" => dest # "old"))
\* nothing is left behind unless somebody was killed
Tidy == (What = "model" /\ \A p \in 1 .. 2 : pc[p] \in {"ok", "error"}) => tmp = <<No, No>>
\* ---- scenarios: who runs how far (in P parts of the call), then is finished or killed
T(p, q, e) == [p |-> p, q |-> q, e |-> e]
Plans(n) == {<<T(1, i, "pause"), T(2, j, "pause"), T(1, 0, e), T(2, 0, f)>> : i \in 0 .. n, j \in 0 .. n, e \in {"end", "kill"}, f \in {"end"}}
            \cup {<<T(1, i, "pause"), T(2, 0, "end"), T(1, 0, e)>> : i \in 0 .. n, e \in {"end", "kill"}}
            \cup {<<T(1, i, "pause"), T(1, 0, "kill"), T(2, 0, "end")>> : i \in 0 .. n}
SInit == /\ c \in IF What = "solo" THEN {<<x>> : x \in Cs} ELSE Few \X Few
         /\ init \in {"absent", "old"} /\ dest = init /\ tmp = <<No, No>> /\ pc = <<"start", "start">>
         /\ out \in IF What = "solo" THEN {<<T(1, 0, "end")>>} \cup {<<T(1, i, "pause"), T(1, 0, "kill")>> : i \in 0 .. P} ELSE Plans(P)
SNext == PrintT(<<"EMIT", ToJson([calls |-> c, init |-> init, turns |-> out])>>) /\ FALSE /\ UNCHANGED vars
Init == IF What = "model" THEN MInit ELSE SInit
Next == IF What = "model" THEN MNext ELSE SNext
=============================================================================
