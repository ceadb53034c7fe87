-------------------------- MODULE RandomStreamDesign --------------------------
EXTENDS RandomStream, TLC, Json
CONSTANTS MaxOps, EmitAt, Seeds
VARIABLES st, hist
O(op, k, v) == [op |-> op, k |-> k, v |-> v]
Ops == UNION { {O(x, k, 0) : x \in Draws \cup {"copy", "reload", "seed"}} \cup {O(x, k, v) : x \in {"new", "set"}, v \in Seeds} : k \in Slots }
Init == st = InitState /\ hist = <<>>
Next == \E o \in Ops : /\ Len(hist) < MaxOps /\ st' = Step(st, o) /\ hist' = Append(hist, o)
                       /\ (IF Len(hist') = EmitAt THEN PrintT(<<"EMIT", ToJson(hist')>>) ELSE TRUE)
\* a stream that is started over repeats itself: two slots of one seed are at the same number exactly after equally many draws
Inv == /\ \A k \in Slots : st[k].n <= Len(hist)
       /\ \A o \in Ops : o.op \in Draws => Key(Step(st, o), o) # Key(st, o)
=============================================================================
