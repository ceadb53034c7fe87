------------------------- MODULE DensityProfileDesign -------------------------
EXTENDS DensityProfile, TLC, Json
VARIABLES c
Profiles == {[t |-> "const", a |-> a] : a \in {1, 3, 0}}
       \cup {[t |-> "poly", p |-> p] : p \in {<<2>>, <<1, 0, 2>>, <<3, 2>>, <<0, 1>>, <<1, 1, 1>>, <<2, 0, 1, 1>>, <<>>, <<5, -1>>, <<4, 0, 0, 0>>}}
       \cup {[t |-> "exp", a |-> a, g |-> g, x0 |-> x] : a \in {1, 3}, g \in {1, -1}, x \in {0, 4}}
DirsT == {<<<<0, 0, 1>>, 1>>, <<<<0, 0, -1>>, 1>>, <<<<1, 0, 0>>, 1>>, <<<<3, 0, 4>>, 5>>, <<<<0, -4, 3>>, 5>>, <<<<1, 2, 2>>, 3>>, <<<<-2, 1, -2>>, 3>>}
AxesT == {<<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 0>>, <<1, 0, 1>>, <<0, 2, 0>>}
Origins == {<<0, 0, 0>>, <<1, -2, 0>>}
Starts == {<<0, 0, 0>>, <<0, 0, 3>>, <<4, 3, 0>>, <<-3, 0, -4>>, <<2, 0, 2>>}
Cfg(f, ax, A, o, d, r, k) == [f |-> f, ax |-> ax, A |-> A, o |-> o, r |-> r, D |-> d[1], den |-> d[2], k |-> k]
Init == \E f \in Profiles, o \in Origins, d \in DirsT, r \in Starts, k \in 1 .. 3 :
           \/ \E A \in AxesT : c = Cfg(f, "axis", A, o, d, r, k)
           \/ c = Cfg(f, "radius", <<0, 0, 0>>, o, d, r, k)
Next == Ok(c) /\ PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
\* depths add up: walking half of the way and then the rest is walking the whole way (exact rationals, same denominator)
Half(x) == [x EXCEPT !.k = 1]
Rest(x) == [x EXCEPT !.k = @ - 1, !.r = Add(@, x.D)]
Additive == (Ok(c) /\ c.k > 1 /\ Ok(Half(c)) /\ Ok(Rest(c))) => /\ Depth(c)[2] = Depth(Half(c))[2]
                        /\ Depth(c)[1] = Depth(Half(c))[1] + Depth(Rest(c))[1]
Grows == Ok(c) /\ Positive(c) => (IF Depth(c)[2] > 0 THEN Depth(c)[1] > 0 ELSE Depth(c)[1] < 0)
=============================================================================
