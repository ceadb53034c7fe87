-------------------------- MODULE FinalStateDesign --------------------------
EXTENDS FinalState, TLC, Json
CONSTANTS MaxOps, Ops, EmitAt
VARIABLES s, hist
Times == {-4, 0, 9}  \* zero and negative values are values like any other
OpSet == UNION { IF o = "stime" THEN [op : {o}, k : 1 .. NSec, t : Times] ELSE [op : {o}, k : {0}, t : Times] : o \in Ops }
Init == s = InitState(3, 11) /\ hist = <<>>
Next == \E o \in OpSet : /\ Len(hist) < MaxOps
                         /\ s' = Apply(s, o) /\ hist' = Append(hist, o)
                         /\ (IF Len(hist') = EmitAt THEN PrintT(<<"EMIT", ToJson(hist')>>) ELSE TRUE)
\* a secondary without a time of its own is produced at the vertex time whatever the order of calls
Last(opn, k) == LET I == {j \in 1 .. Len(hist) : hist[j].op = opn /\ hist[j].k = k}
                IN IF I = {} THEN Unset ELSE hist[CHOOSE j \in I : \A m \in I : m <= j].t
Inv == /\ VertexTime(s) = (IF Last("vtime", 0) = Unset THEN 3 ELSE Last("vtime", 0))
       /\ \A k \in 1 .. NSec : SecTime(s, k) = (IF Last("stime", k) # Unset THEN Last("stime", k) ELSE VertexTime(s))
=============================================================================
