------------------------------- MODULE Algebra -------------------------------
(* Polynomials with rational coefficients c[1] + c[2] x + ... over a common         *)
(* denominator d, and vectors with integer components; the operations the library   *)
(* offers on them, as values that are changed in place, copied and reloaded.        *)
EXTENDS Integers, Sequences, FiniteSets
Pow(x, k) == IF k = 0 THEN 1 ELSE x ^ k
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
RECURSIVE Sum(_, _, _)
\* sum of s[i] for i in lo .. hi
Sum(s, lo, hi) == IF lo > hi THEN 0 ELSE s[lo] + Sum(s, lo + 1, hi)
\* ---- polynomials ---------------------------------------------------------------------
\* value at x, times d
At(p, x) == Sum([i \in 1 .. Len(p.c) |-> p.c[i] * Pow(x, i - 1)], 1, Len(p.c))
\* p(x + k)
Shift(p, k) == [p EXCEPT !.c = [j \in 1 .. Len(p.c) |-> Sum([i \in 1 .. Len(p.c) |-> IF i < j THEN 0 ELSE p.c[i] * Choose(i - 1, j - 1) * Pow(k, i - j)], 1, Len(p.c))]]
\* p(k x)
Scale(p, k) == [p EXCEPT !.c = [j \in 1 .. Len(p.c) |-> p.c[j] * Pow(k, j - 1)]]
Deriv(p) == [p EXCEPT !.c = IF Len(p.c) <= 1 THEN <<>> ELSE [j \in 1 .. Len(p.c) - 1 |-> j * p.c[j + 1]]]
\* antiderivative with the value k at 0, for up to four coefficients
Anti(p, k) == [c |-> <<12 * k * p.d>> \o [j \in 1 .. Len(p.c) |-> (12 \div j) * p.c[j]], d |-> 12 * p.d]
PStep(p, o) == CASE o.op = "shift" -> Shift(p, o.k) [] o.op = "scale" -> Scale(p, o.k) [] o.op = "derive" -> Deriv(p) [] o.op = "anti" -> Anti(p, o.k)
                 [] o.op \in {"clone", "binary", "json", "assign"} -> p
Small(p) == p.d <= 144 /\ Sum([i \in 1 .. Len(p.c) |-> (IF p.c[i] < 0 THEN -p.c[i] ELSE p.c[i]) * Pow(4, i)], 1, Len(p.c)) < 100000 * p.d
\* ---- roots ---------------------------------------------------------------------------
\* the cubic a (x - r1)(x - r2)(x - r3), and at a half-integer h/2, times 8
Cubic(a, r) == [c |-> <<-(a * r[1] * r[2] * r[3]), a * (r[1] * r[2] + r[1] * r[3] + r[2] * r[3]), -(a * (r[1] + r[2] + r[3])), a>>, d |-> 1]
AtHalf(a, r, h) == a * (h - 2 * r[1]) * (h - 2 * r[2]) * (h - 2 * r[3])
\* ---- vectors -------------------------------------------------------------------------
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
VStep(st, o) == LET x == st[o.k] y == st[3 - o.k] IN
    CASE o.op = "set" -> [st EXCEPT ![o.k] = o.v]
      [] o.op = "add" -> [st EXCEPT ![o.k] = Add(x, y)]
      [] o.op = "sub" -> [st EXCEPT ![o.k] = Add(x, Mul(-1, y))]
      [] o.op = "mul" -> [st EXCEPT ![o.k] = Mul(o.f, x)]
      [] o.op = "div" -> [st EXCEPT ![o.k] = <<x[1], x[2], x[3]>>]      \* multiplied by and divided by f
      [] o.op = "cross" -> [st EXCEPT ![o.k] = Cross(x, y)]
      [] o.op = "invert" -> [st EXCEPT ![o.k] = Mul(-1, x)]
      [] o.op \in {"assign", "copy", "array"} -> [st EXCEPT ![o.k] = y]
      [] o.op = "move" -> [st EXCEPT ![o.k] = y, ![3 - o.k] = <<0, 0, 0>>]     \* the driver resets what was moved from
      [] o.op = "swap" -> [st EXCEPT ![o.k] = y, ![3 - o.k] = x]
      [] o.op \in {"binary", "json", "spherical", "norm"} -> st
SmallV(st) == \A k \in 1 .. 2 : \A i \in 1 .. 3 : st[k][i] < 150 /\ st[k][i] > -150
\* ---- deflection ----------------------------------------------------------------------
\* the direction D/den (rho its distance from the z axis, times den) turned by the angle with cosine cp/5 at the azimuth
\* with cosine ct/5 and sine st/5 about it, measured from the direction of growing zenith; times 25 den rho'
\* with rho' = rho, or 1 on the z axis, where growing zenith points along x (before turning upside down)
SinOf(cp) == CASE cp \in {5, -5} -> 0 [] cp \in {4, -4} -> 3 [] cp \in {3, -3} -> 4 [] cp = 0 -> 5
Deflect(c) == LET D == c.D rr == IF c.rho = 0 THEN 1 ELSE c.rho
                  ex == IF c.rho = 0 THEN <<D[3], 0, 0>> ELSE <<D[3] * D[1], D[3] * D[2], -(c.rho * c.rho)>>        \* times den rho'
                  ey == IF c.rho = 0 THEN <<0, c.den, 0>> ELSE <<-(D[2] * c.den), D[1] * c.den, 0>>                      \* times den rho'
              IN Add(Mul(5 * c.cp * rr, D), Add(Mul(SinOf(c.cp) * c.ct, ex), Mul(SinOf(c.cp) * c.st, ey)))
DeflectDen(c) == 25 * c.den * (IF c.rho = 0 THEN 1 ELSE c.rho)
=============================================================================
