-------------------------- MODULE DensityProfileTrace --------------------------
(* Observations in units of 1/10000; depths of exp2 profiles multiplied by ln 2, *)
(* derivatives divided by it. dist are distances found for a depth (-1: none).    *)
EXTENDS DensityProfile, TraceLib
VARIABLES i
F == 10000
Fix(q) == LET n == IF q[2] < 0 THEN -q[1] ELSE q[1]  d == AbsI(q[2]) w == n \div d IN w * F + (((n % d) * F) \div d)
Is(v, q) == v # 2147483647 /\ Abs(v - Fix(q)) <= 8 + (Abs(Fix(q)) \div 20000)
Neg(q) == <<-q[1], q[2]>>
One(o) == LET c == o.c D == Dist(c) * F IN FirstBad(<<
    <<"density", Is(o.rho, Rho(c, c.r)) /\ Is(o.rhoEnd, Rho(c, End(c)))>>,
    <<"derivative", Deriv(c)[2] = 0 \/ Is(o.der, Deriv(c))>>,
    <<"depth", Is(o.depth, Depth(c))>>,
    <<"depth-between-points", Is(o.depth2, Depth(c))>>,
    <<"depth-reversed", Is(o.back, Depth(c))>>,
    <<"depth-of-nothing", o.none = 0>>,
    <<"depth-behind", Is(o.behind, Neg(Depth(c)))>>,
    <<"antiderivative", Is(o.anti, Depth(c))>>,
    <<"distance", Positive(c) => (Near(o.dist, D, 100) \/ (~o.room /\ o.dist = -F))>>,
    <<"distance-up-to-the-end", Positive(c) => Near(o.distEnd, D, 100) \/ o.distEnd = -F>>,
    <<"distance-not-reached", Positive(c) => o.distFar = -F>>,
    <<"distance-of-nothing", Positive(c) => Near(o.distZero, 0, 100)>>,
    <<"distance-with-constant", Positive(c) => (Near(o.distC, D, 100) \/ (~o.room /\ o.distC = -F))>>,
    <<"distance-with-constant-not-reached", Positive(c) => o.distCFar = -F>>,
    <<"copies", \A k \in 1 .. Len(o.copies) : o.copies[k]>> >>)
Pairs(o) == LET n == Len(o.pool) IN FirstBad(<<
    <<"equality", \A a \in 1 .. n, b \in 1 .. n : o.eq[a][b] = Same(o.pool[a], o.pool[b])>>,
    <<"inequality", \A a \in 1 .. n, b \in 1 .. n : o.ne[a][b] = ~Same(o.pool[a], o.pool[b])>> >>)
V(o) == IF o.g = "one" THEN One(o) ELSE Pairs(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
