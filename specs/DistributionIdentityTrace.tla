----------------------- MODULE DistributionIdentityTrace -----------------------
EXTENDS DistributionIdentity, TraceLib
VARIABLES i
Pool1(o) == LET n == Len(o.pool) p == o.pool IN FirstBad(<<
    <<"equality", \A a \in 1 .. n, b \in 1 .. n : o.eq[a][b] = Same(p[a], p[b])>>,
    <<"equivalence", \A a \in 1 .. n, b \in 1 .. n : o.areq[a][b] = Same(p[a], p[b])>>,
    <<"order-total", \A a \in 1 .. n, b \in 1 .. n : IF Same(p[a], p[b]) THEN ~o.lt[a][b] /\ ~o.lt[b][a] ELSE o.lt[a][b] # o.lt[b][a]>>,
    <<"order-transitive", \A a \in 1 .. n, b \in 1 .. n : o.lt[a][b] => \A e \in 1 .. n : (o.lt[b][e] => o.lt[a][e])>>,
    <<"set-size", o.set = Cardinality({{b \in 1 .. n : Same(p[a], p[b])} : a \in 1 .. n})>> >>)
Elem(o) == FirstBad(<<
    <<"name", o.name = NameOf(o.d.k)>>, <<"variables", o.vars = Variables(o.d.k)>>,
    <<"copy-equal", \A k \in 1 .. Len(o.copies) : o.copies[k].eq /\ o.copies[k].name>>,
    <<"copy-density", \A k \in 1 .. Len(o.copies) : o.copies[k].dens>>,
    <<"copy-samples", \A k \in 1 .. Len(o.copies) : o.copies[k].smp>>,
    <<"copy-normalization", \A k \in 1 .. Len(o.copies) : o.copies[k].norm>>,
    <<"repeatable", o.again>>, <<"depends-on-seed", o.other>>, <<"const", o.still>> >>)
Point(o) == FirstBad(<<
    <<"density", o.v = IF PointLaw(o.d, o.a) THEN 1000 ELSE 0>>, <<"sampled-value", o.sampled>> >>)
V(o) == CASE o.g = "pool" -> Pool1(o) [] o.g = "elem" -> Elem(o) [] o.g = "point" -> Point(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
