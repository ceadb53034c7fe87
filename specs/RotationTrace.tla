---------------------------- MODULE RotationTrace ----------------------------
(* Components in units of 1/10000 unless they are integers by construction.      *)
EXTENDS Rotation, TraceLib
VARIABLES i
F == 10000
Is(v, n, d) == v # 2147483647 /\ Abs(v * d - n * F) <= 6 * d
IsV(v, w, d) == \A k \in 1 .. 3 : Is(v[k], w[k], d)
IsM(v, m, d) == \A r \in 1 .. 3, k \in 1 .. 3 : Is(v[r][k], m[r][k], d)
\* product of fixed point matrices
FM(a, b) == LET m == MM(a, b) IN [r \in 1 .. 3 |-> [k \in 1 .. 3 |-> m[r][k] \div F]]
FEuler(o, a) == LET f == EulerFactors(o, a, F) IN FM(f[1], FM(f[2], f[3]))
NearM(v, m, d, e) == \A r \in 1 .. 3, k \in 1 .. 3 : Abs(v[r][k] * d - m[r][k] * F) <= e * d
\* does the fixed point quaternion u describe the rotation of the integer quaternion q: u parallel to q, of length one
Parallel(u, q) == /\ \A a \in 1 .. 4 : Abs(u[a]) <= 10010
                  /\ \A a \in 1 .. 4, b \in 1 .. 4 : Abs(u[a] * q[b] - u[b] * q[a]) <= 6 * (1 + Abs(q[1]) + Abs(q[2]) + Abs(q[3]) + Abs(q[4]))
                  /\ Abs(((u[1] * u[1] + u[2] * u[2]) \div 2) + ((u[3] * u[3] + u[4] * u[4]) \div 2) - 50000000) <= 60000
OneBad(o) == LET q == o.q m == M(q) n == N(q) IN FirstBad(<<
    <<"rotate", \A k \in 1 .. Len(o.vs) : IsV(o.rot[k], Apply(m, o.vs[k]), n)>>,
    <<"rotate-back", \A k \in 1 .. Len(o.vs) : IsV(o.inv[k], Apply(Transp(m), o.vs[k]), n)>>,
    <<"rotate-unnormalised", \A k \in 1 .. Len(o.vs) : IsV(o.rotU[k], Apply(m, o.vs[k]), n) /\ IsV(o.invU[k], Apply(Transp(m), o.vs[k]), n)>>,
    <<"rotate-quaternion", \A k \in 1 .. Len(o.vs) : IsV(o.rotQ[k], Apply(m, o.vs[k]), n) /\ IsV(o.invQ[k], Apply(Transp(m), o.vs[k]), n)>>,
    <<"matrix", IsM(o.mat, m, n) /\ IsM(o.matU, m, n)>>,
    <<"from-matrix", Parallel(o.fromM, q)>>,
    <<"conjugate", o.conj = Conj(q) /\ o.conj2 = Conj(q)>>,
    <<"inverse", \A k \in 1 .. 4 : Is(o.inverse[k], Conj(q)[k], n) /\ Is(o.inverse2[k], Conj(q)[k], n)>>,
    <<"normalise", Parallel(o.unit, q)>>,
    <<"length", o.sq = n /\ Abs((o.len \div 10) * (o.len \div 10) - n * 10000) <= 3 * (o.len \div 10)>>,
    <<"axis-angle", Parallel(o.axisAngle, q)>>,
    <<"axis-angle-values", LET s == o.sinHalf w == o.cosHalf IN \* unit axis times sine of half the angle, cosine: the quaternion
          LET u == <<(o.axis[1] * s) \div F, (o.axis[2] * s) \div F, (o.axis[3] * s) \div F, w>> IN Parallel(u, q)>>,
    <<"euler-roundtrip", \A k \in 1 .. Len(o.euler) : NearM(FEuler(Ord(o.euler[k].n), o.euler[k].cs), m, n, 12)>>,
    <<"euler-from-matrix", \A k \in 1 .. Len(o.euler) : NearM(FEuler(Ord(o.euler[k].n), o.euler[k].csm), m, n, 12)>>,
    <<"euler-special", NearM(FEuler(Ord("ZXZr"), o.zxz), m, n, 12) /\ NearM(FEuler(Ord("XYZs"), o.xyz), m, n, 12)>>,
    <<"reload", o.reload>> >>)
TwoBad(o) == LET a == o.a b == o.b IN FirstBad(<<
    <<"product", o.prod = Prod(a, b)>>,
    <<"product-of-matrices", o.mm = MM(M(a), M(b))>>,
    <<"matrix-sum", o.mplus = [r \in 1 .. 3 |-> Add(M(a)[r], M(b)[r])] /\ o.mminus = [r \in 1 .. 3 |-> Add(M(a)[r], Mul(-1, M(b)[r]))] /\ o.mplus2 = o.mplus>>,
    <<"matrix-scale", o.mscale = [r \in 1 .. 3 |-> Mul(-3, M(a)[r])] /\ o.mscale2 = o.mscale /\ o.mneg = [r \in 1 .. 3 |-> Mul(-1, M(a)[r])] /\ o.mdiv = M(a)>>,
    <<"matrix-entrywise", o.mentry = [r \in 1 .. 3 |-> [k \in 1 .. 3 |-> M(a)[r][k] * M(b)[r][k]]]>>,
    <<"matrix-vector", o.mv = Apply(M(a), V(b))>>,
    <<"matrix-index", o.mindex = M(a)>>,
    <<"sum", o.sum = Add(a, b) /\ o.sum2 = Add(a, b)>>,
    <<"scale", o.scale = Mul(-3, a) /\ o.scale2 = Mul(-3, a)>>,
    <<"dot", o.dot = DotQ(a, b)>>,
    <<"lerp", o.lerp = Add(Mul(3, a), b)>>,                   \* four times the point a quarter of the way
    <<"equality", o.eq = (a = b) /\ o.ne = (a # b) /\ o.meq = (M(a) = M(b)) /\ o.mne = (M(a) # M(b))>>,
    <<"order", o.lt = (\E k \in 1 .. 4 : a[k] < b[k] /\ \A l \in 1 .. k - 1 : a[l] = b[l])>>,
    <<"slerp-ends", (\E s \in {1, -1} : Parallel(o.slerp0, Mul(s, a))) /\ (\E s \in {1, -1} : Parallel(o.slerp1, Mul(s, b)))>>,
    \* half way between two rotations with the same length: their sum (or, for opposite signs, the rotation itself)
    <<"slerp-half", N(a) = N(b) => IF Add(a, b) = <<0, 0, 0, 0>> THEN Parallel(o.slerpHalf, a) ELSE Parallel(o.slerpHalf, Add(a, b))>>,
    <<"swap", o.swapped>> >>)
EulerBad(o) == LET m == EulerM(Ord(o.n), o.a, 5) IN FirstBad(<<
    <<"euler-quaternion", IsM(o.mq, m, 125)>>,
    <<"euler-set", IsM(o.mset, m, 125)>>,
    <<"euler-matrix", IsM(o.mm, m, 125)>>,
    <<"euler-value", o.value>> >>)
BetweenBad(o) == LET x == Cross(o.u, o.v) IN FirstBad(<<
    <<"between", \A k \in 1 .. 3 : Near(o.got[k], o.want[k], 6)>>,
    \* the shortest way: vectors perpendicular to both stay
    <<"between-shortest", x # <<0, 0, 0>> => \A k \in 1 .. 3 : Near(o.perp[k], x[k] * F, 8 * (1 + Abs(x[1]) + Abs(x[2]) + Abs(x[3])))>>,
    <<"between-unit", Near(o.len, F, 2)>>,
    <<"between-same", (x = <<0, 0, 0>> /\ Dot(o.u, o.v) > 0) => (\A k \in 1 .. 3 : Near(o.q[k], 0, 1)) >> >>)
VB(o) == CASE o.g = "one" -> OneBad(o) [] o.g = "two" -> TwoBad(o) [] o.g = "euler" -> EulerBad(o) [] o.g = "between" -> BetweenBad(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, VB(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
