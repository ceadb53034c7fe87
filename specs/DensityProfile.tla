---------------------------- MODULE DensityProfile ----------------------------
(* Mass density profiles along a line. A profile gives the density as a function *)
(* of a coordinate x: the position along an axis (x = axis.(r - origin)) or the   *)
(* distance from an origin. Along a line r + t d (d a unit vector D/den) the       *)
(* column depth over a distance is the integral of the density over t.            *)
(* Profiles: const, poly (coefficients, constant first), exp2 (amplitude times    *)
(* 2^(g(x - x0)), g = 1 or -1). Everything is rational; integrals of exp2 are in   *)
(* units of 1/ln 2.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
AbsI(x) == IF x < 0 THEN -x ELSE x
Sqrt(n) == CHOOSE k \in 0 .. 200 : k * k <= n /\ (k + 1) * (k + 1) > n
IsSq(n) == Sqrt(n) * Sqrt(n) = n
\* a configuration: [f |-> profile, ax |-> "axis" | "radius", A |-> axis, o |-> origin, r |-> start, D |-> direction, den |-> its length, k |-> steps]
End(c) == Add(c.r, Mul(c.k, c.D))                   \* after the distance k * den
Dist(c) == c.k * c.den
X(c, r) == IF c.ax = "axis" THEN Dot(c.A, Sub(r, c.o)) ELSE Sqrt(Dot(Sub(r, c.o), Sub(r, c.o)))
X2(c, r) == Dot(Sub(r, c.o), Sub(r, c.o))
HasX(c, r) == c.ax = "axis" \/ IsSq(X2(c, r))
Pow(x, k) == IF k = 0 THEN 1 ELSE x ^ k
\* coefficient k of a polynomial, 0 beyond
Co(p, k) == IF k + 1 <= Len(p) THEN p[k + 1] ELSE 0
PolyAt(p, x) == LET g[k \in 0 .. Len(p)] == IF k = 0 THEN 0 ELSE g[k-1] + p[k] * Pow(x, k - 1) IN g[Len(p)]
DPolyAt(p, x) == LET g[k \in 0 .. Len(p)] == IF k <= 1 THEN 0 ELSE g[k-1] + (k - 1) * p[k] * Pow(x, k - 2) IN g[Len(p)]
\* antiderivative, times 12 (degree up to 3)
P12(p, x) == LET g[k \in 0 .. Len(p)] == IF k = 0 THEN 0 ELSE g[k-1] + (12 \div k) * p[k] * (x ^ k) IN g[Len(p)]
\* 2^e with e >= -8, times 256
T256(e) == 2 ^ (e + 8)
Even(p) == \A k \in 1 .. Len(p) : k % 2 = 0 => p[k] = 0
\* a line that passes through the origin of a radial profile (or starts there)
Through(c) == LET w == Sub(c.r, c.o) IN w[1] * c.D[2] = w[2] * c.D[1] /\ w[2] * c.D[3] = w[3] * c.D[2] /\ w[1] * c.D[3] = w[3] * c.D[1]
\* signed coordinate along such a line, per unit of D: r - o = s D / den * ... , here in units of length
Along(c, r) == Dot(Sub(r, c.o), c.D) \div c.den
Outward(c) == Along(c, c.r) >= 0 /\ Along(c, End(c)) >= 0
Inward(c) == Along(c, c.r) <= 0 /\ Along(c, End(c)) <= 0
\* ---- the density at a point, <<numerator, denominator>> -------------------------------------
Rho(c, r) == CASE c.f.t = "const" -> <<c.f.a, 1>>
               [] c.f.t = "poly" -> IF c.ax = "axis" THEN <<PolyAt(c.f.p, X(c, r)), 1>>
                                    ELSE IF Even(c.f.p) THEN <<Co(c.f.p, 0) + Co(c.f.p, 2) * X2(c, r), 1>> ELSE <<PolyAt(c.f.p, X(c, r)), 1>>
               [] c.f.t = "exp" -> <<c.f.a * T256(c.f.g * (X(c, r) - c.f.x0)), 256>>
\* ---- the column depth from the start over the distance k den -------------------------------
\* slope of the coordinate along the line, <<numerator, denominator>>
Slope(c) == <<Dot(c.A, c.D), c.den>>
Depth(c) ==
    CASE c.f.t = "const" -> <<c.f.a * Dist(c), 1>>
      [] c.f.t = "poly" /\ c.ax = "axis" ->
           IF Dot(c.A, c.D) = 0 THEN <<PolyAt(c.f.p, X(c, c.r)) * Dist(c), 1>>
           ELSE <<(P12(c.f.p, X(c, End(c))) - P12(c.f.p, X(c, c.r))) * c.den, 12 * Dot(c.A, c.D)>>
      [] c.f.t = "exp" /\ c.ax = "axis" ->
           IF Dot(c.A, c.D) = 0 THEN <<c.f.a * T256(c.f.g * (X(c, c.r) - c.f.x0)) * Dist(c), 256>>      \* not in units of 1/ln 2
           ELSE <<c.f.a * c.f.g * (T256(c.f.g * (X(c, End(c)) - c.f.x0)) - T256(c.f.g * (X(c, c.r) - c.f.x0))) * c.den, 256 * Dot(c.A, c.D)>>
      [] c.f.t = "poly" /\ c.ax = "radius" /\ Even(c.f.p) ->
           \* x^2 = r^2 + 2 t (r.D)/den + t^2 with t up to T: c0 T + c2 (r^2 T + T^2 (r.D)/den + T^3/3)
           LET w == Sub(c.r, c.o) TT == Dist(c) IN
           <<3 * Co(c.f.p, 0) * TT + Co(c.f.p, 2) * (3 * Dot(w, w) * TT + 3 * TT * c.k * Dot(w, c.D) + TT * TT * TT), 3>>
      [] c.f.t = "poly" /\ c.ax = "radius" ->        \* along a radius, not across the origin
           IF Outward(c) THEN <<P12(c.f.p, X(c, End(c))) - P12(c.f.p, X(c, c.r)), 12>> ELSE <<P12(c.f.p, X(c, c.r)) - P12(c.f.p, X(c, End(c))), 12>>
      [] c.f.t = "exp" /\ c.ax = "radius" ->
           <<c.f.a * c.f.g * (IF Outward(c) THEN 1 ELSE -1) * (T256(c.f.g * (X(c, End(c)) - c.f.x0)) - T256(c.f.g * (X(c, c.r) - c.f.x0))), 256>>
\* is the depth in units of 1/ln 2
InLn2(c) == c.f.t = "exp" /\ ~(c.ax = "axis" /\ Dot(c.A, c.D) = 0)
\* ---- derivative of the density along the line at the start; exp2: in units of ln 2 -----------
Deriv(c) == CASE c.f.t = "const" -> <<0, 1>>
              [] c.f.t = "poly" /\ c.ax = "axis" -> <<DPolyAt(c.f.p, X(c, c.r)) * Dot(c.A, c.D), c.den>>
              [] c.f.t = "exp" /\ c.ax = "axis" -> <<c.f.a * c.f.g * T256(c.f.g * (X(c, c.r) - c.f.x0)) * Dot(c.A, c.D), 256 * c.den>>
              [] c.ax = "radius" /\ X2(c, c.r) = 0 -> <<0, 0>>                                          \* no direction at the origin
              [] c.f.t = "poly" /\ c.ax = "radius" /\ Even(c.f.p) -> <<2 * Co(c.f.p, 2) * Dot(Sub(c.r, c.o), c.D), c.den>>
              [] c.f.t = "poly" /\ c.ax = "radius" -> <<DPolyAt(c.f.p, X(c, c.r)) * (IF Outward(c) THEN 1 ELSE -1), 1>>
              [] c.f.t = "exp" /\ c.ax = "radius" -> <<c.f.a * c.f.g * T256(c.f.g * (X(c, c.r) - c.f.x0)) * (IF Outward(c) THEN 1 ELSE -1), 256>>
\* a polynomial that is positive on the whole positive side
PolyPos(p, x) == x >= 0 /\ p # <<>> /\ (\A k \in 1 .. Len(p) : p[k] >= 0) /\ p[1] > 0
\* ---- configurations that make sense ---------------------------------------------------------
ExpOk(c, r) == LET e == c.f.g * (X(c, r) - c.f.x0) IN e >= -8 /\ e <= 6
Ok(c) == /\ c.ax = "radius" => ((c.f.t = "poly" /\ Even(c.f.p)) \/ c.f.t = "const" \/ (Through(c) /\ (Outward(c) \/ Inward(c)) /\ Dot(Sub(c.r, c.o), c.D) % c.den = 0 /\ IsSq(X2(c, c.r)) /\ IsSq(X2(c, End(c)))))
         /\ c.f.t = "exp" => (HasX(c, c.r) /\ HasX(c, End(c)) /\ ExpOk(c, c.r) /\ ExpOk(c, End(c)))
         \* the integral of a radial profile is found numerically, relative to its value: no cancellation
         /\ (c.ax = "radius" /\ c.f.t = "poly" /\ ~Even(c.f.p)) => (Rho(c, c.r)[1] >= 0 /\ (PolyPos(c.f.p, 0) \/ PolyAt(c.f.p, X(c, c.r) + 2 * Dist(c)) >= 0))
         /\ (c.ax = "axis" /\ c.f.t = "poly") => (AbsI(X(c, c.r)) <= 25 /\ AbsI(X(c, End(c))) <= 25)
\* the density is positive along the whole way (and as far again, where the search may look), so that the distance for a depth is unique
Positive(c) == CASE c.f.t = "const" -> c.f.a > 0
                 [] c.f.t = "exp" -> c.f.a > 0
                 [] OTHER -> IF c.ax = "radius" THEN PolyPos(c.f.p, 0) ELSE PolyPos(c.f.p, X(c, c.r)) /\ PolyPos(c.f.p, X(c, Add(c.r, Mul(2 * c.k, c.D))))
Same(c, d) == c.f = d.f /\ (c.f.t = "const" \/ (c.ax = d.ax /\ c.o = d.o /\ (c.ax = "axis" => c.A = d.A)))
=============================================================================
