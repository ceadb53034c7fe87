---------------------------- MODULE AlgebraDesign ----------------------------
EXTENDS Algebra, TLC, Json
CONSTANTS What, MaxOps, EmitAt
VARIABLES st, hist
\* ---- polynomials
Start == { <<>>, <<3>>, <<0, 1>>, <<2, -3>>, <<1, 0, 2>>, <<-1, 2, 0, 1>>, <<0, 0, 0, -2>>, <<1, 1, 1, 1>>, <<5, -4, 3, -2, 1>>, <<0, 3, 0, 0, 2>>, <<1, 2, 3>> }
POps == {[op |-> "shift", k |-> k] : k \in {-3, -1, 0, 1, 2}} \cup {[op |-> "scale", k |-> k] : k \in {-2, -1, 0, 1, 3}} \cup {[op |-> "anti", k |-> k] : k \in {0, 5, -1}}
        \cup {[op |-> x, k |-> 0] : x \in {"derive", "clone", "binary", "json", "assign"}}
PInit == \E c \in Start : st = [c |-> c, d |-> 1] /\ hist = <<[op |-> "make", k |-> 0, c |-> c]>>
PNext == \E o \in POps : /\ Len(hist) < MaxOps + 1
                         /\ (o.op = "anti" => Len(st.c) <= 4)
                         /\ st' = PStep(st, o) /\ Small(st') /\ hist' = Append(hist, o)
                         /\ (IF Len(hist') = EmitAt + 1 THEN PrintT(<<"EMIT", ToJson(hist')>>) ELSE TRUE)
\* the transformed polynomial is the polynomial at the transformed argument; deriving undoes integrating
Algebraic == What = "poly" => \A x \in -2 .. 3 :
    /\ \A k \in {-2, 1, 3} : At(Shift(st, k), x) = At(st, x + k) /\ At(Scale(st, k), x) = At(st, k * x)
    /\ Len(st.c) <= 4 => At(Deriv(Anti(st, 7)), x) = 12 * At(st, x) /\ At(Anti(st, 7), 0) = 84 * st.d
\* ---- vectors
Vs == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 0, -2>>, <<3, -4, 12>>, <<-1, 2, 2>>, <<0, 3, 0>>}
VO(op, k, v, f) == [op |-> op, k |-> k, v |-> v, f |-> f]
VOps == UNION {{VO("set", k, v, 1) : v \in Vs} \cup {VO(x, k, <<0, 0, 0>>, f) : x \in {"mul", "div"}, f \in {-1, 2, 0}} \cup {VO(x, k, <<0, 0, 0>>, 1) : x \in {"add", "sub", "cross", "invert", "assign", "copy", "array", "move", "swap", "binary", "json", "spherical", "norm"}} : k \in 1 .. 2}
VInit == st = <<<<0, 0, 0>>, <<0, 0, 0>>>> /\ hist = <<>>
VNext == \E o \in VOps : /\ Len(hist) < MaxOps /\ ~(o.op = "div" /\ o.f = 0)
                         /\ st' = VStep(st, o) /\ SmallV(st') /\ hist' = Append(hist, o)
                         /\ (IF Len(hist') = EmitAt THEN PrintT(<<"EMIT", ToJson(hist')>>) ELSE TRUE)
Geometric == What = "vec" => LET a == st[1] b == st[2] c == Cross(a, b) IN
    Dot(a, c) = 0 /\ Dot(b, c) = 0 /\ Dot(c, c) = Dot(a, a) * Dot(b, b) - Dot(a, b) * Dot(a, b)
\* ---- roots and deflections: configurations
Roots == {[a |-> a, r |-> <<p, q, s>>, lo |-> lo, hi |-> hi, x0 |-> x0] : a \in {1, -2}, p \in -3 .. 3, q \in {0, 2}, s \in {-4, 2, 5}, lo \in {-8, -7, -4, 1, 4}, hi \in {-7, -6, 3, 4, 9, 10}, x0 \in {0, 1, 2}}
Dirs == {<<<<0, 0, 1>>, 1, 0>>, <<<<0, 0, -1>>, 1, 0>>, <<<<1, 0, 0>>, 1, 1>>, <<<<0, -1, 0>>, 1, 1>>, <<<<3, 4, 0>>, 5, 5>>, <<<<0, 3, -4>>, 5, 3>>, <<<<3, -4, 12>>, 13, 5>>, <<<<-4, -3, -12>>, 13, 5>>}
Defl == {[D |-> d[1], den |-> d[2], rho |-> d[3], cp |-> cp, ct |-> t[1], st |-> t[2]] : d \in Dirs, cp \in {5, 4, 3, 0, -3, -4, -5}, t \in {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<3, 4>>, <<4, -3>>, <<-4, 3>>, <<-3, -4>>}}
CInit == hist = <<>> /\ st \in IF What = "root" THEN Roots ELSE Defl
CNext == PrintT(<<"EMIT", ToJson(st)>>) /\ FALSE /\ UNCHANGED <<st, hist>>
\* the deflected direction is a unit vector at the asked angle
Rigid == What = "deflect" => LET v == Deflect(st) n == DeflectDen(st) IN (n <= 3500 => Dot(v, v) = n * n) /\ 5 * Dot(v, st.D) = st.cp * st.den * n
Init == IF What = "poly" THEN PInit ELSE IF What = "vec" THEN VInit ELSE CInit
Next == IF What = "poly" THEN PNext ELSE IF What = "vec" THEN VNext ELSE CNext
=============================================================================
