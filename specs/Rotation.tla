------------------------------- MODULE Rotation -------------------------------
(* Rotations described by quaternions <<x, y, z, w>> with integer components, by    *)
(* 3x3 matrices, by Euler angles in 24 conventions and by an axis and an angle.     *)
(* A quaternion q describes the rotation with the matrix M(q) / N(q), both exact     *)
(* integers; Euler angles are taken from angles with rational cosine and sine.       *)
EXTENDS Integers, Sequences, FiniteSets
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Mul(k, a) == [i \in DOMAIN a |-> k * a[i]]
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
N(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
DotQ(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3] + p[4] * q[4]
V(q) == <<q[1], q[2], q[3]>>
\* Hamilton product: first b, then a
Prod(a, b) == LET v == Add(Add(Mul(a[4], V(b)), Mul(b[4], V(a))), Cross(V(a), V(b))) IN <<v[1], v[2], v[3], a[4] * b[4] - Dot(V(a), V(b))>>
Conj(q) == <<-q[1], -q[2], -q[3], q[4]>>
\* matrix of the rotation times N(q), by rows
M(q) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
    <<<<x*x - y*y - z*z + w*w, 2 * (x*y - z*w), 2 * (x*z + y*w)>>, <<2 * (x*y + z*w), y*y - x*x - z*z + w*w, 2 * (y*z - x*w)>>, <<2 * (x*z - y*w), 2 * (y*z + x*w), z*z - x*x - y*y + w*w>>>>
Apply(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Transp(m) == <<<<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>>>>
MM(a, b) == LET t == Transp(b) IN <<<<Dot(a[1], t[1]), Dot(a[1], t[2]), Dot(a[1], t[3])>>, <<Dot(a[2], t[1]), Dot(a[2], t[2]), Dot(a[2], t[3])>>, <<Dot(a[3], t[1]), Dot(a[3], t[2]), Dot(a[3], t[3])>>>>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
\* the vector v rotated by q as a quaternion product, N(q) times
Sandwich(q, v) == V(Prod(Prod(q, <<v[1], v[2], v[3], 0>>), Conj(q)))
\* ---- Euler angles -------------------------------------------------------------------
\* rotation about an axis by the angle with cosine c/u and sine s/u, times u
Elem(ax, c, s, u) == CASE ax = "X" -> <<<<u, 0, 0>>, <<0, c, -s>>, <<0, s, c>>>>
                       [] ax = "Y" -> <<<<c, 0, s>>, <<0, u, 0>>, <<-s, 0, c>>>>
                       [] ax = "Z" -> <<<<c, -s, 0>>, <<s, c, 0>>, <<0, 0, u>>>>
\* name of a convention |-> its three axes, in the order of the angles, and whether the axes are static
E(n, a, b, c, st) == [n |-> n, ax |-> <<a, b, c>>, st |-> st]
Orders == { E("XYZs", "X", "Y", "Z", TRUE), E("XYXs", "X", "Y", "X", TRUE), E("XZYs", "X", "Z", "Y", TRUE), E("XZXs", "X", "Z", "X", TRUE),
            E("YZXs", "Y", "Z", "X", TRUE), E("YZYs", "Y", "Z", "Y", TRUE), E("YXZs", "Y", "X", "Z", TRUE), E("YXYs", "Y", "X", "Y", TRUE),
            E("ZXYs", "Z", "X", "Y", TRUE), E("ZXZs", "Z", "X", "Z", TRUE), E("ZYXs", "Z", "Y", "X", TRUE), E("ZYZs", "Z", "Y", "Z", TRUE),
            E("ZYXr", "Z", "Y", "X", FALSE), E("XYXr", "X", "Y", "X", FALSE), E("YZXr", "Y", "Z", "X", FALSE), E("XZXr", "X", "Z", "X", FALSE),
            E("XZYr", "X", "Z", "Y", FALSE), E("YZYr", "Y", "Z", "Y", FALSE), E("ZXYr", "Z", "X", "Y", FALSE), E("YXYr", "Y", "X", "Y", FALSE),
            E("YXZr", "Y", "X", "Z", FALSE), E("ZXZr", "Z", "X", "Z", FALSE), E("XYZr", "X", "Y", "Z", FALSE), E("ZYZr", "Z", "Y", "Z", FALSE) }
Ord(n) == CHOOSE o \in Orders : o.n = n
\* the three elementary rotations: about static axes the first one is applied first
Turn(o, k, a, u) == Elem(o.ax[k], a[k][1], a[k][2], u)
EulerFactors(o, a, u) == IF o.st THEN <<Turn(o, 3, a, u), Turn(o, 2, a, u), Turn(o, 1, a, u)>> ELSE <<Turn(o, 1, a, u), Turn(o, 2, a, u), Turn(o, 3, a, u)>>
\* exact, times u^3
EulerM(o, a, u) == LET f == EulerFactors(o, a, u) IN MM(f[1], MM(f[2], f[3]))
=============================================================================
