------------------------- MODULE SamplerDensityDesign -------------------------
EXTENDS SamplerDensity, TLC, Json
CONSTANTS Deep
VARIABLES c
Sum(s) == LET g[k \in 0 .. Len(s)] == IF k = 0 THEN 0 ELSE g[k-1] + s[k] IN g[Len(s)]
Dirs == {<<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 0>>, <<0, -1, 0>>, <<3, 0, 4>>, <<0, 0, 5>>, <<0, 0, -7>>, <<-2, 1, -2>>, <<1, 1, 1>>}
Axes == {<<0, 1, 2>>, <<1, 2, 3, 4>>, <<0, 1, 3, 4>>, <<0, 4, 5>>, <<2, 4, 6>>, <<0, 2, 4, 8>>}
Vals == {0, 1, 6}
Init ==
    \/ \E h \in {4, 2, 1, -1, -2, -4}, r \in {<<1, 2, 3, 4>>, <<2, 3, 4>>, <<1, 2>>}, u \in {-3, 0, 3} : c = [t |-> "power", h |-> h, r |-> r, u |-> u]
    \/ \E r \in {<<1, 2, 4>>, <<1, 2, 4, 8>>, <<2, 4>>}, u \in {-3, 0, 3} : c = [t |-> "power", h |-> 0, r |-> r, u |-> u]
    \/ c = [t |-> "iso"]
    \/ c = [t |-> "pidar"]
    \/ \E d \in Dirs, a \in {30, 60, 90, 120, 180} : c = [t |-> "cone", d |-> d, a |-> a]
    \/ \E x \in Axes : \E f \in [1 .. Len(x) -> Vals] :
         \/ c = [t |-> "flux", x |-> x, f |-> f, lo |-> 4 * x[1], hi |-> 4 * x[Len(x)], b |-> FALSE]
         \/ \E lo \in (4 * x[1]) .. (4 * x[1] + 3), w \in {3, 4, 6, 9} : lo + w <= 4 * x[Len(x)] /\ c = [t |-> "flux", x |-> x, f |-> f, lo |-> lo, hi |-> lo + w, b |-> TRUE]
    \/ \E x \in {<<4, 5, 6>>, <<1, 2, 3>>, <<2, 4, 6>>} : \E f \in [1 .. 3 -> [1 .. 3 -> {0, 1, 5}]] : c = [t |-> "flux2", x |-> x, f |-> f]
    \/ \E s \in {-2, -1, 0, 1}, n \in 2 .. 4 : c = [t |-> "flux2l", s |-> s, n |-> n]
    \/ c = [t |-> "fluxl", n |-> 3]
    \/ \E n \in 1 .. 4, u \in {0, 2} : c = [t |-> "expo", n |-> n, u |-> u]
    \/ \E m \in 1 .. 4 : c = [t |-> "moyal", m |-> m]
Constr == c.t = "flux" => FluxInt(c) > 0
Next == ((c.t = "flux" => FluxInt(c) > 0) /\ (c.t = "flux2" => Flux2Int(c) > 24)) /\ PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
\* the shares are shares: none negative, and together everything (up to rounding)
Inv == (c.t = "flux" => FluxInt(c) > 0) /\ (c.t = "flux2" => Flux2Int(c) > 0) =>
       LET m == Mass(c) IN (\A k \in 1 .. Len(m) : m[k] >= 0) /\ Sum(m) <= BP /\ Sum(m) >= BP - Len(m)
InvOk == (IF c.t = "flux" THEN FluxInt(c) > 0 ELSE IF c.t = "flux2" THEN Flux2Int(c) > 0 ELSE TRUE) => Inv
=============================================================================
