-------------------------- MODULE TableInterpDesign --------------------------
EXTENDS TableInterp, TLC, Json
CONSTANTS Part
VARIABLES c
LinAxes == {[p |-> FALSE, a |-> s] : s \in {<<0, 1, 2>>, <<1, 2, 3>>, <<2, 4, 6, 8>>, <<-2, 0, 2>>, <<0, 1, 4>>, <<-3, 1, 2, 6>>, <<0, 3, 4, 5>>, <<0, 5>>}}
PowAxes == {[p |-> TRUE, a |-> s] : s \in {<<1, 2, 3>>, <<0, 2, 4, 6>>, <<1, 4>>, <<1, 2, 3, 5>>, <<1, 3, 4, 7>>, <<0, 1, 3, 4, 6>>}}
LinVals == {0, 1, 3, 8}
PowVals == {Z, 0, 2, 5}
Fill(ax, V) == [1 .. N(ax) -> V]
Small == {<<1, 2, 3>>, <<1, 4>>, <<0, 2, 4>>, <<1, 2, 4>>}
Axes2 == {[p |-> FALSE, a |-> s] : s \in {<<0, 1, 2>>, <<-1, 0, 2>>, <<0, 4>>}} \cup {[p |-> TRUE, a |-> s] : s \in Small}
\* two dimensional values: a row and a column pattern combined
Val2(pw, x, y, m) == IF pw THEN (IF (x + y * m) % 4 = 3 THEN Z ELSE (x * m + 2 * y) % 6) ELSE (3 * x + m * x * y + y) % 9
Init ==
    \/ Part = "one" /\ \E ax \in LinAxes : \E f \in Fill(ax, LinVals) : c = [k |-> "one", ax |-> ax, f |-> f]
    \/ Part = "one" /\ \E ax \in PowAxes : \E f \in Fill(ax, PowVals) : c = [k |-> "one", ax |-> ax, f |-> f]
    \/ Part = "two" /\ \E ax \in Axes2, ay \in Axes2, m \in 1 .. 4 :
          c = [k |-> "two", ax |-> ax, ay |-> ay, f |-> [x \in 1 .. N(ax) |-> [y \in 1 .. N(ay) |-> Val2(ax.p \/ ay.p, x, y, m)]]]
    \/ Part = "trap" /\ \E x \in {<<0, 1, 2>>, <<0, 4, 5, 7>>, <<-3, -1, 0, 4>>, <<2, 3>>} : \E y \in [1 .. Len(x) -> {0, 1, 5}] :
          \E l \in {-20, -5, 0, 1, 3, 6, 9, 14}, w \in {0, 1, 3, 4, 10, 16, 30} : c = [k |-> "trap", x |-> x, y |-> y, l |-> l, r |-> l + w]
    \/ Part = "poly" /\ \E p \in [1 .. 4 -> {-2, 0, 1}], a \in -2 .. 1, w \in 0 .. 3 : c = [k |-> "poly", p |-> p, a |-> a, b |-> a + w]
    \/ Part = "poly" /\ \E n \in 5 .. 9, a \in 0 .. 1, w \in 1 .. 2 : c = [k |-> "poly", p |-> [m \in 1 .. n |-> IF m = n THEN 1 ELSE 0], a |-> a, b |-> a + w]
    \/ Part = "poly" /\ \E p \in {<<1>>, <<1, 1>>, <<0, 0, 1>>, <<2, 0, 0, 1>>}, r \in {<<1>>, <<1, 2>>, <<1, 0, 3>>, <<0, 1, 0, 2>>}, a \in {-1, 0, 2}, a2 \in {-1, 0} :
          c = [k |-> "poly2", p |-> p, r |-> r, a |-> a, b |-> a + 2, a2 |-> a2, b2 |-> a2 + 1]
Next == PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
\* a table takes its own values at its nodes, and stays between neighbouring values in between
Ge(v, m) == v[2] >= m * v[3]
Le(v, m) == v[2] <= m * v[3]
Own(v, f, pw) == v[1] = "skip" \/ (IF v[1] = "log" \/ ~pw THEN v[2] = f * v[3] ELSE v[2] = Plain(f) * v[3])
Inv == /\ c.k = "one" =>
            \A i \in 1 .. N(c.ax) :
                /\ Own(Interp1(c.ax, c.f, 4 * c.ax.a[i]), c.f[i], c.ax.p)
                /\ i < N(c.ax) => \A q \in 4 * c.ax.a[i] .. 4 * c.ax.a[i+1] :
                      LET v == Interp1(c.ax, c.f, q)
                          g(u) == IF v[1] = "log" \/ ~c.ax.p THEN u ELSE Plain(u)
                          lo == IF g(c.f[i]) < g(c.f[i+1]) THEN g(c.f[i]) ELSE g(c.f[i+1])
                          hi == IF g(c.f[i]) < g(c.f[i+1]) THEN g(c.f[i+1]) ELSE g(c.f[i])
                      IN v[1] = "skip" \/ (Ge(v, lo) /\ Le(v, hi))
       /\ c.k = "two" => \A i \in 1 .. N(c.ax), j \in 1 .. N(c.ay) :
            \A v \in Interp2(c.ax, c.ay, c.f, 4 * c.ax.a[i], 4 * c.ay.a[j]) : Own(v, c.f[i][j], c.ax.p \/ c.ay.p)
       \* the integral is additive over neighbouring ranges
       /\ c.k = "trap" => \A m \in c.l .. c.r : Trapezoid(c.x, c.y, c.l, c.r) = Trapezoid(c.x, c.y, c.l, m) + Trapezoid(c.x, c.y, m, c.r)
       /\ c.k = "poly" => \A m \in c.a .. c.b : PolyInt(c.p, c.a, c.b) = PolyInt(c.p, c.a, m) + PolyInt(c.p, m, c.b)
=============================================================================
