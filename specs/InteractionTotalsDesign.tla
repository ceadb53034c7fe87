----------------------- MODULE InteractionTotalsDesign -----------------------
EXTENDS InteractionTotals, TLC, Json
CONSTANTS MaxX, MaxD
VARIABLES c
Lists(n, m) == UNION {[1 .. k -> 1 .. n] : k \in 0 .. m}
Init == c \in [xs : Lists(Len(XsPool), MaxX), dec : Lists(Len(DecPool), MaxD), f : 1 .. 2]
Next == PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
\* every channel is counted for exactly one target and final state
Inv == /\ \A t \in 1 .. 3 : TotalAll(c.xs, t, 1) = Total(c.xs, t, 1, 1) + Total(c.xs, t, 2, 1)
       /\ \A t \in 1 .. 3 : (TotalAll(c.xs, t, 1) > 0 => t \in AllTargets(c.xs))
       /\ \A t \in 1 .. 3 : (t \in AllTargets(c.xs)) = (ByTarget(c.xs, t, 1) # <<>>)
=============================================================================
