------------------------- MODULE SamplerDensityTrace -------------------------
(* Observations: cnt = number of the N samples per bin, dens = integral of the  *)
(* density over each bin (1/10000), rest = samples outside all bins, zero =      *)
(* samples whose own density is not positive, out = largest density outside the  *)
(* support (10^-6), pts = density at points.                                     *)
EXTENDS SamplerDensity, TraceLib
VARIABLES i
MH(c) == c.t \in {"flux2", "flux2l"}
Close(v, m) == v # 2147483647 /\ Abs(v - m) <= 4 + m \div 500
Pts(c, p) == CASE c.t = "power" -> PowerDens(c, p)
               [] c.t = "pidar" -> (12 * p * p * p * (10 - p))
               [] c.t = "flux" -> FluxDens(c, p)
               [] c.t = "flux2" -> Flux2Dens(c, p[1], p[2])
               [] c.t = "iso" -> 796
               [] c.t = "cone" -> (CASE c.a = 60 -> 3183 [] c.a = 90 -> 1592 [] c.a = 120 -> 1061 [] c.a = 180 -> 796 [] c.a = 30 -> 11880)
V(o) == LET c == o.c m == Mass(c) IN FirstBad(<<
    <<"support", o.rest = 0>>,
    <<"own-density-positive", o.zero = 0>>,
    <<"zero-outside", o.out = 0>>,
    <<"bins", Len(o.cnt) = Len(m) /\ Len(o.dens) = Len(m)>>,
    <<"samples", \A k \in 1 .. Len(m) : Compatible(o.cnt[k], o.n, m[k], IF MH(c) THEN 12 ELSE 1)>>,
    <<"density", \A k \in 1 .. Len(m) : Close(o.dens[k], m[k])>>,
    <<"density-at-points", \A k \in 1 .. Len(o.at) : Close(o.pts[k], Pts(c, o.at[k]))>>,
    <<"unit-direction", o.unit>>,
    <<"normalization", o.norm>>,
    <<"cumulative", o.cdf>> >>)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
