------------------------- MODULE ProcessIdentityTrace --------------------------
EXTENDS ProcessIdentity, TraceLib
VARIABLE i
Pool1(o) == LET n == Len(o.pool)  p == o.pool IN FirstBad(<<
    <<"ran", o.failed = FALSE>>,
    <<"equality", o.failed = FALSE /\ \A a \in 1 .. n, b \in 1 .. n : (IsDecay(p[a]) = IsDecay(p[b])) => o.eq[a][b] = Same(p[a], p[b])>>,
    <<"the same answers", o.failed = FALSE /\ \A a \in 1 .. n, b \in 1 .. n : Same(p[a], p[b]) => o.ans[a] = o.ans[b]>> >>)
\* one after the other in one archive, the first one twice, a number behind
Row(o) == LET n == Len(o.pool)  p == o.pool IN FirstBad(<<
    <<"ran", o.failed = FALSE>>,
    <<"loaded equals saved", o.failed = FALSE /\ \A a \in 1 .. n : o.eq[a]>>,
    <<"loaded answers the same", o.failed = FALSE /\ \A a \in 1 .. n : o.same[a]>>,
    <<"shared stays shared", o.failed = FALSE /\ o.shared>>,
    <<"what follows is intact", o.failed = FALSE /\ o.behind>>,
    <<"saved again is the same", o.failed = FALSE /\ o.again>>,
    <<"differs from the others", o.failed = FALSE /\ \A a \in 1 .. n, b \in 1 .. n : (IsDecay(p[a]) = IsDecay(p[b]) /\ ~Same(p[a], p[b])) => ~o.cross[a][b]>> >>)
Number(z, a) == 1000000000 + (10000 * z) + (10 * a)
Refuse(o) == LET c == o.c IN FirstBad(<< <<"files of another nucleus or mass are refused", o.threw = ~(c.there /\ Number(c.Z, c.A) = c.t /\ c.m = c.tm)>> >>)
V(o) == CASE o.g = "pool" -> Pool1(o) [] o.g = "row" -> Row(o) [] o.g = "refuse" -> Refuse(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
================================================================================
