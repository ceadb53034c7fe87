-------------------------------- MODULE Solids --------------------------------
(* Solids as sets of points, and what a straight line through one must report. *)
(* Lengths are whole ticks; points lie on a lattice F times finer.  Membership *)
(* is decided exactly in integers: 1 inside, 0 on the surface (or on a seam    *)
(* between two parts, where nothing is claimed), -1 outside.  Intersection,    *)
(* union and complement of such verdicts are minimum, maximum and negation.    *)
EXTENDS Integers, Sequences
Sgn(e) == IF e > 0 THEN 1 ELSE IF e = 0 THEN 0 ELSE -1
Ab(e) == IF e < 0 THEN -e ELSE e
And2(a, b) == IF a < b THEN a ELSE b
Or2(a, b) == IF a > b THEN a ELSE b
RECURSIVE AndS(_)
AndS(s) == IF s = <<>> THEN 1 ELSE And2(Head(s), AndS(Tail(s)))
RECURSIVE OrS(_)
OrS(s) == IF s = <<>> THEN -1 ELSE Or2(Head(s), OrS(Tail(s)))

(* ---- azimuthal wedge: from eighth turn a over n eighth turns ------------- *)
D8 == << <<1,0>>, <<1,1>>, <<0,1>>, <<-1,1>>, <<-1,0>>, <<-1,-1>>, <<0,-1>>, <<1,-1>> >>
Dir(i) == D8[(i % 8) + 1]
Cross(u, v) == (u[1] * v[2]) - (u[2] * v[1])
Wedge(x, y, w) ==
    IF w[2] >= 8 THEN 1
    ELSE LET a == Sgn(Cross(Dir(w[1]), <<x, y>>))  b == Sgn(Cross(<<x, y>>, Dir(w[1] + w[2])))
         IN  IF w[2] < 4 THEN And2(a, b) ELSE IF w[2] = 4 THEN a ELSE Or2(a, b)
(* ---- polar angle at most k eighth turns ----------------------------------- *)
Polar(r2, z, k) ==
    CASE k <= 0 -> -1
      [] k = 1 -> (IF z > 0 THEN Sgn((z * z) - r2) ELSE IF z = 0 /\ r2 = 0 THEN 0 ELSE -1)
      [] k = 2 -> Sgn(z)
      [] k = 3 -> (IF z < 0 THEN Sgn(r2 - (z * z)) ELSE IF z = 0 /\ r2 = 0 THEN 0 ELSE 1)
      [] OTHER -> 1
(* ---- squared radius r2 against a radius num/den (k times both squares) ---- *)
\* within a hair's breadth of the surface nothing is claimed: the lines walked are moved off the lattice by less than that
Hair(e, h) == IF Ab(e) < h THEN 0 ELSE Sgn(e)
Rad(k, r2, num, den) == Hair((k * (num * num)) - (r2 * (den * den)), den * den)

(* ---- a conical section between two heights, lengths already in lattice units *)
Section(k, r2, z, z1, z2, i1, o1, i2, o2) ==
    LET d == z2 - z1
        out == (o1 * (z2 - z)) + (o2 * (z - z1))
        inn == (i1 * (z2 - z)) + (i2 * (z - z1))
    IN  IF z < z1 \/ z > z2 \/ d = 0 THEN -1
        ELSE AndS(<< Sgn(z - z1), Sgn(z2 - z), Rad(k, r2, out, d), -Rad(k, r2, inn, d) >>)
RECURSIVE Stack(_, _, _, _, _, _)
Stack(k, r2, z, zs, is, os) ==
    IF Len(zs) < 2 THEN -1
    ELSE Or2(Section(k, r2, z, zs[1], zs[2], is[1], os[1], is[2], os[2]), Stack(k, r2, z, Tail(zs), Tail(is), Tail(os)))
Sc(f, s) == [i \in 1..Len(s) |-> f * s[i]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Up(zs, s) == IF zs[1] > zs[Len(zs)] THEN Rev(s) ELSE s

(* ---- a polygon in the (radius, height) half plane ------------------------- *)
Edge(rs, zs, i) == LET j == (i % Len(rs)) + 1 IN <<rs[i], zs[i], rs[j], zs[j]>>
EdgeHit(r2, z, e) ==      \* on the edge
    IF e[2] = e[4] THEN z = e[2] /\ Rad(1, r2, e[1], 1) * Rad(1, r2, e[3], 1) <= 0
    ELSE /\ Sgn(z - e[2]) * Sgn(z - e[4]) <= 0
         /\ LET d == e[4] - e[2] IN Rad(1, r2, (e[1] * (e[4] - z)) + (e[3] * (z - e[2])), d) = 0
EdgeCut(r2, z, e) ==      \* the edge lies further out at this height
    /\ (e[2] <= z) # (e[4] <= z)
    /\ Rad(1, r2, (e[1] * (e[4] - z)) + (e[3] * (z - e[2])), e[4] - e[2]) = 1
RECURSIVE Count(_, _, _, _, _)
Count(r2, z, rs, zs, i) == IF i > Len(rs) THEN 0 ELSE (IF EdgeCut(r2, z, Edge(rs, zs, i)) THEN 1 ELSE 0) + Count(r2, z, rs, zs, i + 1)
InProfile(r2, z, rs, zs) ==
    IF \E i \in 1..Len(rs) : EdgeHit(r2, z, Edge(rs, zs, i)) THEN 0
    ELSE IF Count(r2, z, rs, zs, 1) % 2 = 1 THEN 1 ELSE -1

(* ---- an extruded convex polygon: sections <<z, scale in halves, ox, oy>> --- *)
Area2(V) == LET T[i \in 0..Len(V)] == IF i = 0 THEN 0 ELSE T[i-1] + Cross(V[i], V[(i % Len(V)) + 1]) IN T[Len(V)]
Prism(f, x, y, z, V, s, t) ==
    LET L == f * (t[1] - s[1])  u == (f * t[1]) - z  v == z - (f * s[1])
        qx == (2 * (L * x)) - (2 * (f * ((s[3] * u) + (t[3] * v))))
        qy == (2 * (L * y)) - (2 * (f * ((s[4] * u) + (t[4] * v))))
        sc == f * ((s[2] * u) + (t[2] * v))
        side(i) == LET a == V[i]  b == V[(i % Len(V)) + 1]
                   IN  Sgn(Area2(V)) * Sgn(Cross(<<b[1] - a[1], b[2] - a[2]>>, <<qx - (sc * a[1]), qy - (sc * a[2])>>))
    IN  IF u < 0 \/ v < 0 THEN -1 ELSE AndS(<<Sgn(u), Sgn(v)>> \o [i \in 1..Len(V) |-> side(i)])
RECURSIVE Prisms(_, _, _, _, _, _)
Prisms(f, x, y, z, V, S) == IF Len(S) < 2 THEN -1 ELSE Or2(Prism(f, x, y, z, V, S[1], S[2]), Prisms(f, x, y, z, V, Tail(S)))

(* ---- rotations by whole quarter and third turns: integer quaternions ------- *)
QN(q) == (q[1]*q[1]) + (q[2]*q[2]) + (q[3]*q[3]) + (q[4]*q[4])
Rot(q, p) ==    \* q = <<w, x, y, z>>; exact only when the matrix is an integer one
    LET w == q[1]  a == q[2]  b == q[3]  c == q[4]  n == QN(q) IN
    << ((((w*w)+(a*a)-(b*b)-(c*c)) * p[1]) + (2 * (((a*b)-(w*c)) * p[2])) + (2 * (((a*c)+(w*b)) * p[3]))) \div n,
       ((2 * (((a*b)+(w*c)) * p[1])) + (((w*w)-(a*a)+(b*b)-(c*c)) * p[2]) + (2 * (((b*c)-(w*a)) * p[3]))) \div n,
       ((2 * (((a*c)-(w*b)) * p[1])) + (2 * (((b*c)+(w*a)) * p[2])) + (((w*w)-(a*a)-(b*b)+(c*c)) * p[3])) \div n >>
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
ToChild(f, c, p) == Rot(Conj(c.q), << p[1] - (f * c.t[1]), p[2] - (f * c.t[2]), p[3] - (f * c.t[3]) >>)

Slab(f, full, v) == Sgn((f * full) - (2 * Ab(v)))
BoxIn(f, lo, hi, p) == AndS([i \in 1..3 |-> And2(Sgn(p[i] - (f * lo[i])), Sgn((f * hi[i]) - p[i]))])

(* ---- membership -------------------------------------------------------------- *)
RECURSIVE In(_, _, _)
In(s, f, p) ==
    LET x == p[1]  y == p[2]  z == p[3]  n == s.n
        r2 == (x * x) + (y * y)  m == (r2 + (z * z))
    IN CASE s.k = "box" -> AndS(<< Slab(f, n[1], x), Slab(f, n[2], y), Slab(f, n[3], z) >>)
         [] s.k = "sphere" -> AndS(<< Sgn((f * n[1] * f * n[1]) - m), IF n[2] = 0 THEN 1 ELSE Sgn(m - (f * n[2] * f * n[2])), Wedge(x, y, s.w),
                                      -Polar(r2, z, s.th[1]), Polar(r2, z, s.th[1] + s.th[2]) >>)
         [] s.k = "cylinder" -> AndS(<< Slab(f, n[3], z), Rad(1, r2, f * n[1], 1), IF n[2] = 0 THEN 1 ELSE -Rad(1, r2, f * n[2], 1), Wedge(x, y, s.w) >>)
         [] s.k = "cone" -> LET h == f * n[5] IN
               And2(Section(1, 4 * r2, 2 * z, -h, h, 2 * f * n[1], 2 * f * n[2], 2 * f * n[3], 2 * f * n[4]), Wedge(x, y, s.w))
         [] s.k = "cuttube" -> AndS(<< Rad(1, r2, f * n[2], 1), IF n[1] = 0 THEN 1 ELSE -Rad(1, r2, f * n[1], 1), Wedge(x, y, s.w),
               Sgn(-((s.lo[1] * x) + (s.lo[2] * y) + (s.lo[3] * (z + (f * n[3]))))),
               Sgn(-((s.hi[1] * x) + (s.hi[2] * y) + (s.hi[3] * (z - (f * n[3]))))) >>)
         [] s.k = "ellipsoid" -> LET X == x * (12 \div n[1])  Y == y * (12 \div n[2])  Z == z * (12 \div n[3]) IN
               AndS(<< Sgn((12 * f * 12 * f) - ((X * X) + (Y * Y) + (Z * Z))), IF n[4] <= -n[3] THEN 1 ELSE Sgn(z - (f * n[4])), IF n[5] >= n[3] THEN 1 ELSE Sgn((f * n[5]) - z) >>)
         [] s.k = "eltube" -> LET X == x * (12 \div n[1])  Y == y * (12 \div n[2]) IN
               And2(Sgn((12 * f * 12 * f) - ((X * X) + (Y * Y))), Slab(f, 2 * n[3], z))
         [] s.k = "para" -> LET Y2 == (2 * y) - (s.t[3] * z)  X4 == (4 * x) - (s.t[1] * Y2) - (2 * (s.t[2] * z)) IN
               AndS(<< Slab(f, 2 * n[3], z), Sgn((2 * f * n[2]) - Ab(Y2)), Sgn((4 * f * n[1]) - Ab(X4)) >>)
         [] s.k = "trd" -> LET h == f * n[5]  W(a, b) == (f * a * (h - z)) + (f * b * (h + z)) IN
               IF Ab(z) > h THEN -1 ELSE
               AndS(<< Sgn(h - Ab(z)), Sgn(W(n[1], n[2]) - (2 * h * Ab(x))), Sgn(W(n[3], n[4]) - (2 * h * Ab(y))) >>)
         [] s.k = "trap" ->       \* n = dz, dy1, dx1, dx2, dy2, dx3, dx4; t = shears in halves: alpha, x, y
               LET h == f * n[1]  Y2 == (2 * y) - (s.t[3] * z)  X4 == (4 * x) - (2 * (s.t[2] * z)) - (s.t[1] * Y2)
                   wl == f * ((n[3] * (h - z)) + (n[6] * (h + z)))
               IN  IF Ab(z) > h THEN -1 ELSE
                   AndS(<< Sgn(h - Ab(z)), Sgn((f * ((n[2] * (h - z)) + (n[5] * (h + z)))) - (h * Ab(Y2))),
                           IF n[2] = n[5] THEN Sgn((2 * n[2] * wl) + ((n[4] - n[3]) * h * (Y2 + (2 * n[2] * f))) - (h * n[2] * Ab(X4)))
                           ELSE Sgn((2 * wl) - (h * Ab(X4))) >>)
         [] s.k = "torus" -> LET g(r) == m + (f * n[1] * f * n[1]) - (f * r * f * r)     \* (rho - R)^2 + z^2 <= r^2
                                 tube(r) == IF g(r) < 0 THEN 1 ELSE Hair((4 * f * n[1] * f * n[1] * r2) - (g(r) * g(r)), 500)
                             IN  AndS(<< tube(n[2]), IF n[3] = 0 THEN 1 ELSE -tube(n[3]), Wedge(x, y, s.w) >>)
         [] s.k = "polycone" -> And2(Stack(1, r2, z, Up(s.zs, Sc(f, s.zs)), Up(s.zs, Sc(f, s.is)), Up(s.zs, Sc(f, s.os))), Wedge(x, y, s.w))
         [] s.k = "polyhedra" ->  \* eight normals at the eighth turns or four at the quarter turns; radii are apothems
               LET c == IF Ab(x) > Ab(y) THEN Ab(x) ELSE Ab(y)  e == Ab(x) + Ab(y)
                   q == IF s.w[1] % 2 = 1 THEN 2 * c * c ELSE e * e
               IN  And2(Stack(2, q, z, Up(s.zs, Sc(f, s.zs)), Up(s.zs, Sc(f, s.is)), Up(s.zs, Sc(f, s.os))), Wedge(x, y, s.w))
         [] s.k = "genpoly" -> And2(InProfile(r2, z, Sc(f, s.os), Sc(f, s.zs)), Wedge(x, y, s.w))
         [] s.k = "extr" -> Prisms(f, x, y, z, s.V, s.S)
         [] s.k = "meshbox" -> BoxIn(f, <<0, 0, 0>>, n, p)
         [] s.k = "meshell" -> Or2(BoxIn(f, <<0, 0, 0>>, <<2 * n[1], n[2], n[3]>>, p), BoxIn(f, <<0, 0, 0>>, <<n[1], 2 * n[2], n[3]>>, p))
         [] s.k = "meshoct" -> Sgn((f * n[1]) - (Ab(x) + Ab(y) + Ab(z)))
         [] s.k = "bool" -> LET a == In(s.a.s, f, ToChild(f, s.a, p))  b == In(s.b.s, f, ToChild(f, s.b, p)) IN
               IF s.op = "union" THEN Or2(a, b) ELSE IF s.op = "intersection" THEN And2(a, b) ELSE And2(a, -b)

(* ---- a line through a solid ---------------------------------------------------- *)
At(f, c, k) == << ((f * c.q[1]) \div 2) + (k * c.d[1]), ((f * c.q[2]) \div 2) + (k * c.d[2]), ((f * c.q[3]) \div 2) + (k * c.d[3]) >>
Far(f, p) == \E i \in 1..3 : Ab(p[i]) > 24 * f      \* every solid lies within 24 ticks of its origin
InAt(c, k) == LET p == At(c.f, c, k) IN IF Far(c.f, p) THEN -1 ELSE In(c.s, c.f, p)
(* what a list of crossings <<place, entering>> (places in units of 10^-5 steps) says about place u *)
Ambiguous(hs, u) == \E i \in 1..Len(hs) : Ab(hs[i][1] - u) <= 300
RECURSIVE Status(_, _)
Status(hs, u) == IF hs = <<>> THEN FALSE
                 ELSE IF hs[Len(hs)][1] < u THEN hs[Len(hs)][2] ELSE Status(SubSeq(hs, 1, Len(hs) - 1), u)
Place(c, k) == (100000 \div c.f) * k
===============================================================================
