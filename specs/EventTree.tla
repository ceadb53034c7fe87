----------------------------- MODULE EventTree -----------------------------
(* The event tree: a sequence of nodes, each with an id, a parent index (-1:   *)
(* none), its daughters' indices in the order they were added, and the tag of  *)
(* the record it carries.  Indices are 0-based as in the API.                  *)
EXTENDS Integers, Sequences, FiniteSets

NoParent == -1

Node(id, parent, daughters, tag) ==
    [id |-> id, parent |-> parent, daughters |-> daughters, tag |-> tag]

Pos(t) == 0 .. (Len(t) - 1)
At(t, k) == t[k + 1]

\* Adding a record under parent p (or NoParent).  Whatever index fields the
\* added object carried before (stale = fields of another tree) is irrelevant.
AddNode(t, p, tag) ==
    LET n == Len(t)
        u == IF p = NoParent THEN t
             ELSE [t EXCEPT ![p + 1].daughters = Append(@, n)]
    IN Append(u, Node(n, p, <<>>, tag))

RECURSIVE Chain(_, _, _)
\* number of ancestors, or -1 when the parent chain does not end
Chain(t, k, fuel) ==
    IF At(t, k).parent = NoParent THEN 0
    ELSE IF fuel = 0 THEN -1
    ELSE LET r == Chain(t, At(t, k).parent, fuel - 1) IN IF r = -1 THEN -1 ELSE r + 1
Depth(t, k) == Chain(t, k, Len(t))

Range(s) == {s[j] : j \in 1 .. Len(s)}

\* what must be true of every tree the library built or accepted
IdsOk(t) == \A k \in Pos(t) : At(t, k).id = k
InRange(t) == \A k \in Pos(t) :
                 /\ At(t, k).parent = NoParent \/ At(t, k).parent \in Pos(t)
                 /\ Range(At(t, k).daughters) \subseteq Pos(t)
ParentFirst(t) == \A k \in Pos(t) : At(t, k).parent < k
MutualLinks(t) == \A k \in Pos(t) :
                     /\ At(t, k).parent # NoParent =>
                           k \in Range(At(t, At(t, k).parent).daughters)
                     /\ \A d \in Range(At(t, k).daughters) : At(t, d).parent = k
DaughtersOnceInOrder(t) ==
    \A k \in Pos(t) : \A a, b \in 1 .. Len(At(t, k).daughters) :
        a < b => At(t, k).daughters[a] < At(t, k).daughters[b]
WellFormed(t) == /\ IdsOk(t) /\ InRange(t) /\ ParentFirst(t)
                 /\ MutualLinks(t) /\ DaughtersOnceInOrder(t)
DepthOk(t) == \A k \in Pos(t) :
                 Depth(t, k) = IF At(t, k).parent = NoParent THEN 0
                               ELSE 1 + Depth(t, At(t, k).parent)

\* Loading an archive whose index fields are t (nulls = set of null positions):
MustReject(t, nulls) == nulls # {} \/ ~IdsOk(t) \/ ~InRange(t)
MustAccept(t, nulls) == nulls = {} /\ WellFormed(t)
=============================================================================
