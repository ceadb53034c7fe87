------------------------- MODULE ProcessListsDesign -------------------------
EXTENDS ProcessLists, TLC, Json
CONSTANTS Kind, MaxOps, EmitAt, Values, MaxSet
VARIABLES st, hist
Seqs == UNION {[1 .. n -> Values] : n \in 0 .. MaxSet}
O(op, k, v, s, same) == [op |-> op, k |-> k, v |-> v, s |-> s, same |-> same]
Ops == UNION { {O("add", k, v, <<>>, b) : v \in Values, b \in BOOLEAN} \cup {O("addphys", k, v, <<>>, FALSE) : v \in {1, 3}}
               \cup {O("set", k, 0, s, b) : s \in Seqs, b \in BOOLEAN}
               \cup {O(x, k, 0, <<>>, FALSE) : x \in {"copy", "assign", "moveassign"}} \cup {O("reload", k, 0, <<>>, b) : b \in BOOLEAN}
               \cup {O(x, k, v, <<>>, FALSE) : x \in {"type", "coll"}, v \in 1 .. 2} : k \in 1 .. 2 }
Init == st = InitState /\ hist = <<>>
Next == \E o \in Ops : /\ Len(hist) < MaxOps
                       /\ st' = Step(Kind, st, o) /\ hist' = Append(hist, o)
                       /\ (IF Len(hist') = EmitAt THEN PrintT(<<"EMIT", ToJson(hist')>>) ELSE TRUE)
Inv == \A k \in 1 .. 2 : /\ Distinct(st.p[k].phys) /\ Distinct(st.p[k].inj)
                         /\ (Kind # "phys" => st.p[k].phys = st.p[k].inj)
                         /\ (Kind = "phys" => st.p[k].inj = <<>>)
                         /\ st.p[k].coll \in 0 .. Len(st.c)
=============================================================================
