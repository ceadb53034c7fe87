---------------------------- MODULE RotationDesign ----------------------------
EXTENDS Rotation, TLC, Json
CONSTANTS What, Quats
VARIABLES c
\* angles: <<5 cos, 5 sin>>
Angles == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<3, 4>>, <<-4, 3>>, <<4, -3>>}
Small == {q \in [1 .. 4 -> -1 .. 1] : N(q) > 0}
More == {<<1, 2, 2, 4>>, <<2, 0, 0, 1>>, <<0, 3, 0, 4>>, <<-1, 3, 1, 5>>, <<2, -4, 4, 0>>, <<0, 0, -2, 1>>, <<1, 0, -7, 5>>, <<3, 3, 3, -3>>, <<0, 1, 3, 0>>}
Qs == IF Quats = "all" THEN Small \cup More ELSE {q \in Small : q[1] + q[2] + 2 * q[3] + q[4] \in {0, 2}} \cup More
Vecs == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<0, 0, -1>>, <<0, -1, 0>>, <<1, 1, 1>>, <<-1, -1, -1>>, <<1, 2, -3>>, <<-2, -4, 6>>, <<3, 0, 4>>, <<-3, 0, -4>>, <<0, 2, 0>>, <<7, 1, 1>>, <<-7, -1, -1>>, <<1, 1, 2>>, <<-1, -1, -2>>}
Init == CASE What = "one" -> c \in [q : Qs]
          [] What = "two" -> c \in [a : Qs, b : Qs]
          [] What = "euler" -> c \in [n : {o.n : o \in Orders}, a : [1 .. 3 -> Angles]]
          [] What = "between" -> c \in [u : Vecs, v : Vecs]
Next == PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
\* the group laws on which everything rests
One == What = "one" => LET q == c.q m == M(q) n == N(q) IN
    /\ MM(m, Transp(m)) = <<<<n*n, 0, 0>>, <<0, n*n, 0>>, <<0, 0, n*n>>>>
    /\ Det(m) = n * n * n
    /\ \A v \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} : Sandwich(q, v) = Apply(m, v)
    /\ M(Conj(q)) = Transp(m)
    /\ Prod(q, Conj(q)) = <<0, 0, 0, n>>
Two == What = "two" => /\ M(Prod(c.a, c.b)) = MM(M(c.a), M(c.b)) /\ N(Prod(c.a, c.b)) = N(c.a) * N(c.b)
Euler == What = "euler" => LET m == EulerM(Ord(c.n), c.a, 5) IN Det(<<Mul(1, m[1]), m[2], m[3]>>) = 1953125
=============================================================================
