-------------------------- MODULE TableInterpTrace --------------------------
(* Observations: v = value * 10000, l = log2(value) * 10000, rounded.           *)
EXTENDS TableInterp, TraceLib
VARIABLES i
S == 10000
Bad == 2147483647
\* | v/S - n/d | within a rounding unit, computed without leaving 32 bits
Same(v, n, d) == LET w == n \div d r == n % d IN v # Bad /\ Abs(v - (w * S + (r * S) \div d)) <= 2 + w \div 1000
Ok(e, o) == CASE e[1] = "skip" -> TRUE
              [] e[1] = "plain" -> Same(o.v, e[2], e[3])
              [] OTHER -> Same(o.l, e[2], e[3])
AxisOk(ax, a) == /\ a.log = IsLog(ax)
                 /\ Same(a.min, Node(ax, 1), 1) /\ Same(a.max, Node(ax, N(ax)), 1) /\ Same(a.range, Node(ax, N(ax)) - Node(ax, 1), 1)
V(o) == CASE o.k = "one" -> FirstBad(<<
               <<"axis", AxisOk(o.ax, o.axis)>>,
               <<"value", \A k \in 1 .. Len(o.q) : Ok(Interp1(o.ax, o.f, o.q[k]), o.vals[k])>>,
               <<"same-value-as-original", o.bits>>, <<"equal", o.eq>>, <<"different-table-differs", o.neq>> >>)
          [] o.k = "two" -> FirstBad(<<
               <<"axis-x", AxisOk(o.ax, o.axisx)>>, <<"axis-y", AxisOk(o.ay, o.axisy)>>,
               <<"value", \A k \in 1 .. Len(o.q) : \E e \in Interp2(o.ax, o.ay, o.f, o.q[k][1], o.q[k][2]) : Ok(e, o.vals[k])>>,
               <<"same-value-as-original", o.bits>>, <<"equal", o.eq>>, <<"different-table-differs", o.neq>> >>)
          [] o.k = "trap" -> FirstBad(<< <<"integral", Same(o.v, Trapezoid(o.x, o.y, o.l, o.r), 128)>>,
               <<"whole-integral", Same(o.whole, Trapezoid(o.x, o.y, 4 * o.x[1], 4 * o.x[Len(o.x)]), 128)>> >>)
          [] o.k = "poly" -> FirstBad(<< <<"romberg", Same(o.v, PolyInt(o.p, o.a, o.b), 2520)>>, <<"trapezoid-refinement", Same(o.fine, PolyInt(o.p, o.a, o.b), 2520) \/ Len(o.p) > 2>> >>)
          [] o.k = "poly2" -> FirstBad(<< <<"simpson", Same(o.v, PolyInt12(o.p, o.a, o.b) * PolyInt12(o.r, o.a2, o.b2), 144)>> >>)
          [] OTHER -> "unknown"
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
