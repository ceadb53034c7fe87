-------------------------- MODULE EventTreeDesign --------------------------
(* Design specification of event-tree construction and the generator of the    *)
(* construction histories that are replayed into the real code.                *)
EXTENDS EventTree, TLC, Json
CONSTANTS MaxOps, Overloads, Stales, EmitAt
VARIABLES tree, hist
vars == <<tree, hist>>
Init == tree = <<>> /\ hist = <<>>
Add(ov, st, p) ==
    /\ Len(hist) < MaxOps
    /\ tree' = AddNode(tree, p, Len(tree) + 1)
    /\ hist' = Append(hist, [op |-> "add", ov |-> ov, stale |-> st, parent |-> p])
Emit == IF Len(hist') = EmitAt THEN PrintT(<<"EMIT", ToJson(hist')>>) ELSE TRUE
Next == \E ov \in Overloads, st \in Stales, p \in {NoParent} \cup Pos(tree) :
            Add(ov, st, p) /\ Emit
Spec == Init /\ [][Next]_vars
Inv == WellFormed(tree) /\ DepthOk(tree)
\* earlier nodes keep their identity and record: only daughters lists grow
Frozen == [][\A k \in Pos(tree) :
                /\ At(tree', k).id = At(tree, k).id
                /\ At(tree', k).parent = At(tree, k).parent
                /\ At(tree', k).tag = At(tree, k).tag
                /\ SubSeq(At(tree', k).daughters, 1, Len(At(tree, k).daughters)) = At(tree, k).daughters]_vars
TreeView == tree
=============================================================================
