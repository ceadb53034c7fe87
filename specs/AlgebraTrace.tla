---------------------------- MODULE AlgebraTrace ----------------------------
EXTENDS Algebra, TraceLib
VARIABLES i
BAD == 2147483647
\* v is n/d in units of 1/1000
\* guard against overflow: large values are compared without fraction
Val(v, n, d) == v # BAD /\ (IF Abs(n) < 1000000 /\ Abs(v) < 10000000 /\ d <= 144 THEN Abs(v * d - n * 1000) <= d ELSE Abs((v \div 1000) - (n \div d)) <= 1)
PBad(s, p) == FirstBad(<<
    <<"coefficients", Len(s.c) = Len(p.c) /\ \A k \in 1 .. Len(p.c) : Val(s.c[k], p.c[k], p.d)>>,
    <<"value", \A k \in 1 .. 6 : Val(s.at[k], At(p, k - 3), p.d) /\ s.fn[k] = s.at[k]>>,
    <<"argument-shift", \A k \in 1 .. 6 : Val(s.sh[k], At(p, k - 3 + 1), p.d)>>,
    <<"derivative", \A k \in 1 .. 6 : Val(s.der[k], At(Deriv(p), k - 3), p.d)>>,
    <<"antiderivative", Len(p.c) <= 4 => \A k \in 1 .. 6 : Val(s.anti[k], At(Anti(p, 2), k - 3), 12 * p.d)>>,
    <<"identity", s.same /\ ~s.diff /\ ~s.longer>> >>)
RECURSIVE PolyBad(_, _, _)
PolyBad(o, p, k) == IF k > Len(o.ops) THEN "" ELSE LET w == IF k = 1 THEN [c |-> o.ops[1].c, d |-> 1] ELSE PStep(p, o.ops[k]) b == PBad(o.steps[k], w) IN IF b # "" THEN b ELSE PolyBad(o, w, k + 1)
\* a root between the ends, found when the signs differ, refused when they agree
RootBad(o) == LET c == o.c fl == AtHalf(c.a, c.r, c.lo) fh == AtHalf(c.a, c.r, c.hi) lo == IF c.lo < c.hi THEN c.lo ELSE c.hi hi == IF c.lo < c.hi THEN c.hi ELSE c.lo IN
    IF (fl > 0 /\ fh > 0) \/ (fl < 0 /\ fh < 0) THEN (IF o.thrown THEN "" ELSE "not-bracketed")
    ELSE IF o.thrown THEN "thrown" ELSE IF \E k \in 1 .. 3 : 2 * c.r[k] >= lo /\ 2 * c.r[k] <= hi /\ o.x # BAD /\ Abs(o.x - 10000 * c.r[k]) <= 5 THEN "" ELSE "root"
\* ---- vectors
V3(v, w) == \A k \in 1 .. 3 : v[k] # BAD /\ v[k] = 1000 * w[k]
\* the unit vector u (1e-4) along w
Unit(u, w) == IF w = <<0, 0, 0>> THEN u = <<0, 0, 0>> ELSE
    /\ \A k \in 1 .. 3 : u[k] # BAD /\ Abs(u[k]) <= 10001
    /\ Abs(Dot(u, u) - 100000000) <= 40000
    /\ \A k \in 1 .. 3 : Abs(Cross(u, w)[k]) <= 2 + Abs(w[1]) + Abs(w[2]) + Abs(w[3])
    /\ Dot(u, w) > 0
\* r (1e-3) is the length of w
Length(r, w) == r # BAD /\ r >= 0 /\ LET n == Dot(w, w) IN r < 300000 /\ Abs(((r \div 100) * (r \div 100)) - n * 100) <= 100 + 3 * (r \div 100)
              /\ (r < 40000 => Abs(r * r - n * 1000000) <= 2 * r + 2)
OneV(x, w) == FirstBad(<<
    <<"components", V3(x.v, w) /\ x.arr = x.v>>,
    <<"length", Length(x.mag, w)>>,
    <<"negative", V3(x.neg, Mul(-1, w)) /\ V3(x.inv, Mul(-1, w))>>,
    <<"scaled", V3(x.dbl, Mul(2, w)) /\ V3(x.dbr, Mul(2, w)) /\ \A k \in 1 .. 3 : 2 * x.half[k] = 1000 * w[k]>>,
    <<"unit", Unit(x.unit, w) /\ Unit(x.unit2, w)>>,
    <<"spherical", Length(x.rad, w) /\ x.inrange /\ \A k \in 1 .. 3 : x.sph[k] # BAD /\ Abs(x.sph[k] - 1000 * w[k]) <= 1 /\ x.sph2[k] # BAD /\ Abs(x.sph2[k] - 1000 * w[k]) <= 1>>,
    <<"untouched", V3(x.again, w)>> >>)
VBad(s, st) == LET a == OneV(s.p[1], st[1]) b == OneV(s.p[2], st[2]) IN IF a # "" THEN a ELSE IF b # "" THEN b ELSE FirstBad(<<
    <<"sum", V3(s.sum, Add(st[1], st[2]))>>, <<"difference", V3(s.dif, Add(st[1], Mul(-1, st[2])))>>,
    <<"scalar-product", s.dot = 2 * Dot(st[1], st[2])>>, <<"vector-product", V3(s.cross, Cross(st[1], st[2])) /\ V3(s.cross2, Cross(st[1], st[2]))>>,
    <<"equality", s.eq = (st[1] = st[2]) /\ s.ne # s.eq /\ ~(s.lt /\ s.gt) /\ (s.lt \/ s.gt) # s.eq>>,
    <<"order", s.lt = (\E k \in 1 .. 3 : st[1][k] < st[2][k] /\ \A j \in 1 .. k - 1 : st[1][j] = st[2][j])>> >>)
RECURSIVE VecBad(_, _, _)
VecBad(o, st, k) == IF k > Len(o.ops) THEN "" ELSE LET w == VStep(st, o.ops[k]) b == VBad(o.steps[k], w) IN IF b # "" THEN b ELSE VecBad(o, w, k + 1)
DeflBad(o) == LET n == DeflectDen(o.c) v == Deflect(o.c) IN IF \A k \in 1 .. 3 : o.v[k] # BAD /\ Abs(o.v[k]) < 20000 /\ Abs(o.v[k] * n - v[k] * 10000) <= 2 * n THEN "" ELSE "deflected"
Bad(o) == CASE o.g = "poly" -> PolyBad(o, [c |-> <<>>, d |-> 1], 1) [] o.g = "root" -> RootBad(o) [] o.g = "vec" -> VecBad(o, <<<<0, 0, 0>>, <<0, 0, 0>>>>, 1) [] o.g = "deflect" -> DeflBad(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, Bad(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
