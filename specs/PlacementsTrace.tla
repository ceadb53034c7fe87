--------------------------- MODULE PlacementsTrace ---------------------------
EXTENDS Placements, TraceLib
VARIABLES i
F == 10000
Is(v, n, d) == v # 2147483647 /\ Abs(v * d - n * F) <= 8 * d
IsV(v, w, d) == \A k \in 1 .. 3 : Is(v[k], w[k], d)
\* the stored rotation: the unit quaternion in the direction of q
Par(u, q) == \A a \in 1 .. 4 : Abs(u[a]) <= 10010 /\ \A b \in 1 .. 4 : Abs(u[a] * q[b] - u[b] * q[a]) <= 60 + 2 * Abs(q[4])
Along(u, q) == Par(u, q) /\ DotQ(u, q) > 0
\* same stored value: same position and same direction of the quaternion
SameQ(p, q) == \A a \in 1 .. 4, b \in 1 .. 4 : p[a] * q[b] = p[b] * q[a]
Same(a, b) == a.t = b.t /\ SameQ(a.q, b.q) /\ DotQ(a.q, b.q) > 0
OneBad(x, p, vs) == LET n == N(p.q) IN FirstBad(<<
    <<"position", x.pos = p.t>>,
    <<"rotation", Along(x.q, p.q)>>,
    <<"identity", x.id = Identity(p)>>,
    <<"local-to-global", \A k \in 1 .. Len(vs) : IsV(x.l2g[k], L2G(p, vs[k]), n)>>,
    <<"global-to-local", \A k \in 1 .. Len(vs) : IsV(x.g2l[k], G2L(p, vs[k]), n)>>,
    <<"direction-to-global", \A k \in 1 .. Len(vs) : IsV(x.dl2g[k], DirL2G(p, vs[k]), n) /\ IsV(x.rot[k], DirL2G(p, vs[k]), n)>>,
    <<"direction-to-local", \A k \in 1 .. Len(vs) : IsV(x.dg2l[k], DirG2L(p, vs[k]), n) /\ IsV(x.rotinv[k], DirG2L(p, vs[k]), n)>>,
    <<"there-and-back", \A k \in 1 .. Len(vs) : IsV(x.back[k], vs[k], 1)>> >>)
StepBad(s, st, vs) == LET a == OneBad(s.p[1], st[1], vs) b == OneBad(s.p[2], st[2], vs) IN
    IF a # "" THEN a ELSE IF b # "" THEN b
    ELSE IF s.eq # Same(st[1], st[2]) \/ s.ne = s.eq THEN "equality"
    ELSE IF (s.lt /\ s.gt) \/ ((s.lt \/ s.gt) = s.eq) THEN "order" ELSE ""
RECURSIVE HistBad(_, _, _)
HistBad(o, st, k) == IF k > Len(o.ops) THEN "" ELSE LET w == Step(st, o.ops[k]) b == StepBad(o.steps[k], w, o.vs) IN IF b # "" THEN b ELSE HistBad(o, w, k + 1)
Init == i = 1
Next == i <= Len(T) /\ Report(i, HistBad(T[i], <<P0, P0>>, 1)) /\ Done(i) /\ i' = i + 1
=============================================================================
