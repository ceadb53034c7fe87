---------------------- MODULE DistributionIdentityDesign ----------------------
EXTENDS DistributionIdentity, TLC, Json
VARIABLES c
Vecs == {<<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 0>>, <<1, 2, 2>>, <<-1, -2, -2>>, <<0, 1, 0>>}
Init == \/ c \in {[g |-> "elem", d |-> x, a |-> <<0>>] : x \in Pool}
        \/ c \in {[g |-> "point", d |-> x, a |-> <<v>>] : x \in PoolOf("mono") \cup PoolOf("mass"), v \in {0, 2, 3, 4, 5, 6}}
        \/ c \in {[g |-> "point", d |-> x, a |-> v] : x \in PoolOf("fix"), v \in Vecs}
        \/ c \in {[g |-> "point", d |-> x, a |-> <<t, h>>] : x \in PoolOf("hel"), t \in {14, -14, 12, -16}, h \in {-2, -1, 0, 1, 2}}
        \/ c \in {[g |-> "point", d |-> x, a |-> <<1>>] : x \in PoolOf("norm")}
Next == PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
\* sameness is an equivalence on the pool
Inv == \A x \in PoolOf(c.d.k) : (Same(x, x) /\ (Same(x, c.d) = Same(c.d, x)) /\ (Same(x, c.d) => \A y \in PoolOf(c.d.k) : Same(x, y) = Same(c.d, y)))
=============================================================================
