------------------------- MODULE DistributionIdentity -------------------------
(* Distributions as values: a kind and its parameters. Two distributions are the *)
(* same exactly when kind and parameters agree; directions count as unit vectors. *)
(* The order that ordered containers and the merging of distributions rely on is  *)
(* a strict total order of these values.                                          *)
EXTENDS Integers, Sequences, FiniteSets
D(k, p) == [k |-> k, p |-> p]
\* values that differ from a base in one parameter at a time
Vary(k, base, by) == {D(k, base)} \cup {D(k, [base EXCEPT ![i] = @ + by[i]]) : i \in {j \in 1 .. Len(base) : by[j] # 0}}
                     \cup {D(k, [base EXCEPT ![i] = @ - by[i]]) : i \in {j \in 1 .. Len(base) : by[j] # 0}}
Kinds == {"power", "mono", "mass", "cone", "fix", "iso", "pidar", "hel", "moyal", "flux", "flux2", "ext", "norm"}
PoolOf(k) ==
    CASE k = "power" -> Vary(k, <<2, 3, 20>>, <<1, 1, 5>>)                       \* index, bounds
      [] k = "mono" -> Vary(k, <<5>>, <<1>>)
      [] k = "mass" -> Vary(k, <<3>>, <<1>>) \cup {D(k, <<0>>)}
      [] k = "norm" -> Vary(k, <<7>>, <<2>>)
      [] k = "iso" -> {D(k, <<>>)} [] k = "pidar" -> {D(k, <<>>)} [] k = "hel" -> {D(k, <<>>)}
      [] k = "cone" -> {D(k, d \o <<a>>) : d \in {<<0, 0, 1>>, <<0, 0, -1>>, <<0, 0, 4>>, <<1, 0, 0>>, <<-2, 0, 0>>, <<1, 2, 2>>}, a \in {30, 60}}
      [] k = "fix" -> {D(k, d) : d \in {<<0, 0, 1>>, <<0, 0, -1>>, <<0, 0, 4>>, <<1, 0, 0>>, <<-2, 0, 0>>, <<1, 2, 2>>, <<0, 3, 0>>}}
      [] k = "moyal" -> Vary(k, <<2, 20, 6, 3, 4, 5, 2>>, <<1, 1, 1, 1, 1, 1, 1>>)
      [] k = "flux" -> Vary(k, <<5, 11, 2, 4, 3>>, <<1, 1, 1, 1, 1>>)             \* bounds (quarters), values at 1, 2, 3
      [] k = "flux2" -> Vary(k, <<5, 11, -3, 3, 2, 4, 3>>, <<1, 1, 1, 1, 1, 1, 1>>)
      [] k = "ext" -> Vary(k, <<2, 0, 5>>, <<1, 0, 1>>) \cup {D(k, <<2, 1, 5>>)}      \* threshold, columns, a value
Pool == UNION {PoolOf(k) : k \in Kinds}
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
SameDir(a, b) == Cross(a, b) = <<0, 0, 0>> /\ a[1] * b[1] + a[2] * b[2] + a[3] * b[3] > 0
Same(x, y) == /\ x.k = y.k
              /\ IF x.k \in {"cone", "fix"} THEN SameDir(x.p, y.p) /\ (x.k = "cone" => x.p[4] = y.p[4]) ELSE x.p = y.p
Variables(k) == CASE k \in {"power", "pidar", "moyal", "flux", "mono"} -> <<"PrimaryEnergy">>
                  [] k \in {"cone", "iso"} -> <<"PrimaryDirection">>
                  [] k = "flux2" -> <<"PrimaryEnergy", "PrimaryDirection">>
                  [] k = "ext" -> <<"External">>
                  [] OTHER -> <<>>
NameOf(k) == CASE k = "power" -> "PowerLaw" [] k = "mono" -> "Monoenergetic" [] k = "mass" -> "PrimaryMass" [] k = "norm" -> "NormalizationConstant"
               [] k = "iso" -> "IsotropicDirection" [] k = "pidar" -> "PiDARNuEDistribution" [] k = "hel" -> "PrimaryNeutrinoHelicityDistribution"
               [] k = "cone" -> "Cone" [] k = "fix" -> "FixedDirection" [] k = "moyal" -> "ModifiedMoyalPlusExponentialEnergyDistribution"
               [] k = "flux" -> "TabulatedFluxDistribution" [] k = "flux2" -> "Tabulated2DFluxDistribution" [] k = "ext" -> "PrimaryExternalDistribution"
\* ---- laws that fix a quantity: the sampled value, and the density of an event ------------------------
\* a configuration with the value asked about; direction values are vectors
PointLaw(x, a) == CASE x.k = "mono" -> x.p = a
                    [] x.k = "mass" -> x.p = a
                    [] x.k = "fix" -> SameDir(x.p, a)
                    [] x.k = "hel" -> (a[1] > 0 /\ a[2] = -1) \/ (a[1] < 0 /\ a[2] = 1)      \* particle type, twice the helicity
                    [] x.k = "norm" -> TRUE
=============================================================================
