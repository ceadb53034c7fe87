-------------------------- MODULE EventTreeTrace --------------------------
(* Validates recorded tree operations of the real code against EventTree.      *)
EXTENDS EventTree, TraceLib
VARIABLES i, tree
vars == <<i, tree>>

Clean(n) == Node(n.id, n.parent, n.daughters, n.tag)
Obs(o) == [k \in 1 .. Len(o.tree) |-> Clean(o.tree[k])]
Depths(t) == [k \in 1 .. Len(t) |-> Depth(t, k - 1)]

\* state after each operation
After(t, o) ==
    CASE o.op = "new"  -> <<>>
      [] o.op = "add"  -> AddNode(t, o.parent, o.tag)
      [] OTHER -> t

VTree(t, o) == FirstBad(<<
    <<"node-count", Len(o.tree) = Len(t)>>,
    <<"ids-are-positions", IdsOk(Obs(o))>>,
    <<"tree-as-specified", Obs(o) = t>>,
    <<"well-formed", WellFormed(Obs(o))>>,
    <<"depths", o.depths = Depths(t)>>,
    <<"roots", o.roots = [k \in 1 .. Len(t) |-> t[k].parent = NoParent]>> >>)

\* save and load: op = "load", fmt, obs tree after loading; header fields
VLoad(t, o) == FirstBad(<<
    <<"load-threw", ~o.threw>>,
    <<"loaded-count", o.count = o.saved>>,
    <<"header-preserved", o.threw \/ (o.hdr1 = o.hdr0)>>,
    <<"equal-after-load", o.threw \/ o.legacy \/ o.equal>>,
    <<"loaded-tree", o.threw \/ VTree(t, o) = "">> >>)

\* archive with arbitrary index fields
Idxs(o) == [k \in 1 .. Len(o.raw) |-> Node(o.raw[k].id, o.raw[k].parent, o.raw[k].daughters, 0)]
Nulls(o) == {k \in 1 .. Len(o.raw) : o.raw[k].null}
VArch(o) == FirstBad(<<
    <<"bad-archive-accepted", MustReject(Idxs(o), Nulls(o)) => o.threw>>,
    <<"good-archive-rejected", MustAccept(Idxs(o), Nulls(o)) => ~o.threw>>,
    <<"accepted-archive-changed", o.threw \/ [k \in 1 .. Len(o.tree) |-> [Clean(o.tree[k]) EXCEPT !.tag = 0]] = Idxs(o)>>,
    \* depth of every node of an accepted archive: the number of ancestors, or an error when
    \* the parent chain never ends (-2); never a hang
    <<"accepted-archive-depth", o.threw \/ \A k \in 1 .. Len(o.raw) :
           o.depths[k] = (IF Depth(Idxs(o), k - 1) = -1 THEN -2 ELSE Depth(Idxs(o), k - 1))>> >>)

\* equality of trees: equal iff identical in every respect
VEq(o) == FirstBad(<<
    <<"eq-self", o.eqself>>, <<"eq-copy", o.eqcopy>>,
    <<"distinct-reported-equal", \A k \in 1 .. Len(o.changed) : ~o.changed[k]>> >>)

Verdict(t, o) == CASE o.op = "new" -> ""
                   [] o.op = "add" -> VTree(After(t, o), o)
                   [] o.op = "load" -> VLoad(t, o)
                   [] o.op = "arch" -> VArch(o)
                   [] o.op = "eq" -> VEq(o)
                   [] OTHER -> "unknown-op"
Init == i = 1 /\ tree = <<>>
Next == /\ i <= Len(T)
        /\ Report(i, Verdict(tree, T[i]))
        /\ tree' = After(tree, T[i])
        /\ Done(i)
        /\ i' = i + 1
=============================================================================
