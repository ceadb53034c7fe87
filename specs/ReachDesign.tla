------------------------------ MODULE ReachDesign ------------------------------
EXTENDS Reach, TLC, Json, IOUtils
VARIABLES f, os
Kinds == {12, -12, 14, -14, 16, -16, 13, 15, -15, 5914}
Rs == {1, 2, 3, 7}
Ops == [o : {"mu", "tau"}, a : {1, 2}, b : Rs] \cup [o : {"scale"}, a : {1, 2, 3}, b : {0}] \cup [o : {"max"}, a : {1, 50, 3000, 100000}, b : {0}]
    \cup [o : {"ask"}, a : Kinds, b : {0, 1, 2, 5}] \cup [o : {"rel"}, a : {0, 1}, b : {1, 3, 9}] \cup [o : {"reload"}, a : {0, 1}, b : {0}] \cup [o : {"copy"}, a : {0}, b : {0}]
CONSTANT N
Init == f = Fresh /\ os = <<>>
Step == Len(os) < N /\ \E o \in Ops : f' = After(f, o) /\ os' = Append(os, o)
\* a finished history is printed once
Next == Step \/ (Len(os) = N /\ PrintT(<<"EMIT", ToJson([g |-> "lepton", ops |-> os])>>) /\ FALSE /\ UNCHANGED <<f, os>>)
\* the object is what the last call of each kind made it; depths grow with energy, taus go deeper, limits hold
Last(k, d) == LET w == {i \in 1 .. Len(os) : os[i].o = k} IN IF w = {} THEN d ELSE os[CHOOSE i \in w : \A j \in w : j <= i]
Inv == LET nil == [o |-> "", a |-> 0, b |-> 0]  m == Last("mu", nil)  t == Last("tau", nil) IN
    /\ f.mu = <<m.a, m.b>> /\ f.tau = <<t.a, t.b>> /\ f.max = Last("max", nil).a /\ f = AfterAll(Fresh, os)
    /\ (f.mu # <<0, 0>> /\ f.tau # <<0, 0>>) => \A k \in Kinds : /\ Depth(f, k, 0) = 1
        /\ \A d \in {0, 1, 2}, e \in {0, 1, 2, 5} : (d <= e => Depth(f, k, d) <= Depth(f, k, e)) /\ Depth(f, k, e) <= Depth(f, 16, e) /\ Depth(f, k, e) = Depth(f, -k, e) /\ (f.max # 0 => Depth(f, k, e) <= f.max)
================================================================================
