----------------------------- MODULE TableInterp -----------------------------
(* A lookup table of one or two variables and the function it stands for.      *)
(* The axis of a table is a strictly increasing sequence. It is logarithmic     *)
(* when its nodes are evenly spaced in the logarithm, linear when they are      *)
(* evenly spaced, and otherwise whichever of the two is closer to even          *)
(* (an axis that reaches zero or below is never logarithmic).                   *)
(* With no logarithmic axis the function is piecewise (bi)linear. With one, the *)
(* logarithm of the function is piecewise (bi)linear in the logarithm of the    *)
(* logarithmic axes, except in cells with a value that has no logarithm, where  *)
(* the function is (bi)linear in the plain variables. Outside its nodes the     *)
(* function continues its outermost cells; it is never negative.                *)
(*                                                                             *)
(* Axes: [p |-> TRUE, a |-> exponents] has the nodes 2^a, [p |-> FALSE, a |->   *)
(* nodes] has the nodes a. Values: f is 2^f on tables with a power axis (Z for   *)
(* the value 0), plain numbers otherwise. Queries are quarters of a node unit:   *)
(* x = q/4, or x = 2^(q/4) on power axes.                                       *)
EXTENDS Integers, Sequences, FiniteSets
Z == -99
Node(ax, i) == IF ax.p THEN 2 ^ ax.a[i] ELSE ax.a[i]
N(ax) == Len(ax.a)
MaxOf(S) == CHOOSE m \in S : \A k \in S : k <= m
AbsI(x) == IF x < 0 THEN -x ELSE x
\* largest deviation from the mean spacing, relative to it: numerator and denominator
Dev(s) == LET n == Len(s) r == s[n] - s[1] IN
          <<MaxOf({AbsI((s[i+1] - s[i]) * (n - 1) - r) : i \in 1 .. n - 1}), r>>
Even(s) == Dev(s)[1] = 0
IsLog(ax) == IF ~ax.p THEN FALSE
             ELSE IF Even(ax.a) THEN TRUE
             ELSE LET l == Dev(ax.a) p == Dev([i \in 1 .. N(ax) |-> 2 ^ ax.a[i]]) IN l[1] * p[2] < p[1] * l[2]
\* lower node of the cell that a query falls in
CellOf(ax, q) == LET below == {i \in 1 .. N(ax) - 1 : 4 * ax.a[i] < q} IN IF below = {} THEN 1 ELSE MaxOf(below)
\* coordinates of a query in its cell, <<offset, width>>: in units of the exponent, or of the plain variable
Pos(ax, i, q, logarithmic) ==
    IF ax.p /\ ~logarithmic THEN <<(2 ^ (q \div 4)) - Node(ax, i), Node(ax, i + 1) - Node(ax, i)>>
    ELSE <<q - 4 * ax.a[i], 4 * (ax.a[i+1] - ax.a[i])>>
\* queries at which the plain value of a power axis is a whole number
Whole(ax, q) == (~ax.p) \/ (q % 4 = 0 /\ q >= 0)
Plain(v) == IF v = Z THEN 0 ELSE 2 ^ v
Clamp(n) == IF n < 0 THEN 0 ELSE n
\* result: <<"plain" | "log", numerator, denominator>>, or <<"skip", 0, 1>> where the value is not rational
Interp1(ax, f, q) ==
    LET i == CellOf(ax, q) lg == IsLog(ax) IN
    IF lg /\ f[i] # Z /\ f[i+1] # Z
    THEN LET c == Pos(ax, i, q, TRUE) IN <<"log", f[i] * c[2] + (f[i+1] - f[i]) * c[1], c[2]>>
    ELSE IF ~Whole(ax, q) THEN <<"skip", 0, 1>>
    ELSE LET c == Pos(ax, i, q, FALSE)
             u == IF ax.p THEN Plain(f[i]) ELSE f[i]
             v == IF ax.p THEN Plain(f[i+1]) ELSE f[i+1]
         IN <<"plain", Clamp(u * c[2] + (v - u) * c[1]), c[2]>>
\* a query on the border of two cells belongs to both of them
CellsOf(ax, q) == {CellOf(ax, q)} \cup {i \in 1 .. N(ax) - 1 : 4 * ax.a[i] = q}
InterpCell(ax, ay, f, i, j, qx, qy) ==
    LET pw == ax.p \/ ay.p
        lg == IsLog(ax) \/ IsLog(ay)
        zero == \E di \in 0 .. 1, dj \in 0 .. 1 : f[i + di][j + dj] = Z
        bil(g(_), cx, cy) == g(f[i][j]) * (cx[2] - cx[1]) * (cy[2] - cy[1]) + g(f[i][j+1]) * (cx[2] - cx[1]) * cy[1]
                           + g(f[i+1][j]) * cx[1] * (cy[2] - cy[1]) + g(f[i+1][j+1]) * cx[1] * cy[1]
    IN IF lg /\ ~zero
       THEN IF (IsLog(ax) \/ Whole(ax, qx)) /\ (IsLog(ay) \/ Whole(ay, qy))
            THEN LET cx == Pos(ax, i, qx, IsLog(ax)) cy == Pos(ay, j, qy, IsLog(ay)) IN <<"log", bil(LAMBDA v : v, cx, cy), cx[2] * cy[2]>>
            ELSE <<"skip", 0, 1>>
       ELSE IF ~(Whole(ax, qx) /\ Whole(ay, qy)) THEN <<"skip", 0, 1>>
       ELSE LET cx == Pos(ax, i, qx, FALSE) cy == Pos(ay, j, qy, FALSE)
            IN <<"plain", Clamp(IF pw THEN bil(Plain, cx, cy) ELSE bil(LAMBDA v : v, cx, cy)), cx[2] * cy[2]>>

Interp2(ax, ay, f, qx, qy) == {InterpCell(ax, ay, f, i, j, qx, qy) : i \in CellsOf(ax, qx), j \in CellsOf(ay, qy)}

\* ---- the integral of a piecewise linear table over [l/4, r/4], in units of 1/128; the gaps divide 4 -----------
Y16(x, y, i, q) == 16 * y[i] + ((q - 4 * x[i]) * (y[i+1] - y[i]) * 4) \div (x[i+1] - x[i])
Trapezoid(x, y, l, r) ==
    LET g[k \in 0 .. Len(x) - 1] ==
          IF k = 0 THEN 0
          ELSE LET a == IF l > 4 * x[k] THEN l ELSE 4 * x[k]
                   b == IF r < 4 * x[k+1] THEN r ELSE 4 * x[k+1]
               IN g[k-1] + (IF a >= b THEN 0 ELSE (Y16(x, y, k, a) + Y16(x, y, k, b)) * (b - a))
    IN g[Len(x) - 1]

\* ---- the integral of a polynomial with coefficients c (constant term first) over [a, b], in units of 1/2520 ----
PolyInt(c, a, b) == LET g[k \in 0 .. Len(c)] == IF k = 0 THEN 0 ELSE g[k-1] + (2520 \div k) * c[k] * ((b ^ k) - (a ^ k)) IN g[Len(c)]
\* product of two polynomials in two variables, in units of 1/144 (degrees up to 3)
PolyInt12(c, a, b) == LET g[k \in 0 .. Len(c)] == IF k = 0 THEN 0 ELSE g[k-1] + (12 \div k) * c[k] * ((b ^ k) - (a ^ k)) IN g[Len(c)]
=============================================================================
