------------------------- MODULE EventTreeArchives -------------------------
(* Enumerates every index pattern of a small archived tree (valid or not) to   *)
(* be written to an archive and loaded by the real code.                       *)
EXTENDS EventTree, TLC, Json
CONSTANTS N, Extra
VARIABLES t
\* index values: none, in range, first out of range, far out of range
Idx == {NoParent} \cup 0 .. N
DSeqs == {<<>>} \cup {<<a>> : a \in 0 .. N} \cup (IF Extra THEN {<<a, b>> : a, b \in 0 .. N} ELSE {})
Nodes(k) == [id : {k, (k + 1) % (N + 1), N}, parent : Idx, daughters : DSeqs, null : BOOLEAN]
Ok(x) == x.null => x.parent = NoParent /\ x.daughters = <<>>
Init == t \in {s \in [1 .. N -> UNION {Nodes(k) : k \in 0 .. N - 1}] :
                 \A k \in 1 .. N : /\ s[k] \in Nodes(k - 1) /\ Ok(s[k])
                                   /\ (s[k].null => s[k].id = k - 1)}
        /\ PrintT(<<"EMIT", ToJson(t)>>)
Next == UNCHANGED t
=============================================================================
