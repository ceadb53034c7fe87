------------------------- MODULE ParticleKinematics -------------------------
(* A particle on a straight track, described by redundant quantities of which  *)
(* any subset may be set; the others are derived.  Values are exact integers   *)
(* on Pythagorean lattices: m^2 + p^2 = E^2, direction D/DN a rational unit    *)
(* vector, every derived length an integer.                                    *)
EXTENDS Integers, Sequences, FiniteSets

Scenarios == <<
  [m |-> 9,  p |-> 12, E |-> 15, D |-> <<2, 1, 2>>,  DN |-> 3, x0 |-> <<9, -18, 27>>,  L |-> 6,  t0 |-> 100, hel |-> -1],
  [m |-> 3,  p |-> 4,  E |-> 5,  D |-> <<0, 0, 1>>,  DN |-> 1, x0 |-> <<7, -2, -11>>,  L |-> 20, t0 |-> 0,   hel |-> 1],
  [m |-> 0,  p |-> 10, E |-> 10, D |-> <<-3, 0, 4>>, DN |-> 5, x0 |-> <<5, 6, 10>>,    L |-> 15, t0 |-> -7,  hel |-> -1],
  [m |-> 12, p |-> 5,  E |-> 13, D |-> <<-1, 0, 0>>, DN |-> 1, x0 |-> <<40, 3, 4>>,    L |-> 10, t0 |-> 3,   hel |-> 0],
  [m |-> 20, p |-> 21, E |-> 29, D |-> <<2, -2, 1>>, DN |-> 3, x0 |-> <<-12, 0, -3>>,  L |-> 9,  t0 |-> 12,  hel |-> 1],
  [m |-> 7,  p |-> 0,  E |-> 7,  D |-> <<0, 1, 0>>,  DN |-> 1, x0 |-> <<1, -4, 2>>,    L |-> 5,  t0 |-> 2,   hel |-> -1] >>

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
VScale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VDiv(a, n) == <<a[1] \div n, a[2] \div n, a[3] \div n>>
Along(s, k) == VDiv(VScale(k, s.D), s.DN)        \* k units along the direction

KE(s) == s.E - s.m
Mom(s) == Along(s, s.p)
Vtx(s) == VAdd(s.x0, Along(s, s.L))
IDist(s) == Dot(s.x0, s.D) \div s.DN             \* signed distance from the point of closest approach
VDist(s) == IDist(s) + s.L
Poca(s) == VAdd(s.x0, Along(s, -IDist(s)))

Exact(s) ==                                      \* the lattice really is exact
    /\ s.m * s.m + s.p * s.p = s.E * s.E
    /\ Dot(s.D, s.D) = s.DN * s.DN
    /\ VScale(s.DN, Mom(s)) = VScale(s.p, s.D)
    /\ VScale(s.DN, Along(s, s.L)) = VScale(s.L, s.D)
    /\ IDist(s) * s.DN = Dot(s.x0, s.D)
    /\ VScale(s.DN, Along(s, IDist(s))) = VScale(IDist(s), s.D)
    /\ Dot(Poca(s), s.D) = 0
    /\ VAdd(Poca(s), Along(s, VDist(s))) = Vtx(s)

Quantities == {"mass", "energy", "ke", "dir", "mom", "len", "x0", "vtx", "poca", "vdist", "idist"}

\* what is derivable from the set S of set quantities
Has(S, qs) == qs \subseteq S
DMass(S) == Has(S, {"mass"}) \/ Has(S, {"energy", "mom"}) \/ Has(S, {"energy", "ke"})
DEnergy(S) == Has(S, {"energy"}) \/ Has(S, {"mass", "mom"}) \/ Has(S, {"mass", "ke"})
DKe(S) == Has(S, {"ke"}) \/ Has(S, {"mass", "energy"}) \/ Has(S, {"mass", "mom"})
DMom(S) == Has(S, {"mom"}) \/ Has(S, {"energy", "mass", "dir"}) \/ Has(S, {"mass", "ke", "dir"})
DDir(S) == Has(S, {"dir"}) \/ Has(S, {"mom"}) \/ Has(S, {"x0", "vtx"})
DLen(S) == Has(S, {"len"}) \/ Has(S, {"x0", "vtx"}) \/ Has(S, {"idist", "vdist"})
DX0(S) == \/ Has(S, {"x0"}) \/ Has(S, {"vtx", "dir", "len"})
          \/ Has(S, {"vtx", "dir", "idist", "vdist"}) \/ Has(S, {"poca", "dir", "idist"})
DVtx(S) == \/ Has(S, {"vtx"}) \/ Has(S, {"x0", "dir", "len"})
           \/ Has(S, {"x0", "dir", "idist", "vdist"}) \/ Has(S, {"poca", "dir", "vdist"})
DPoca(S) == \/ Has(S, {"poca"}) \/ Has(S, {"x0", "dir", "idist"})
            \/ Has(S, {"vtx", "dir", "vdist"}) \/ Has(S, {"x0", "vtx"})
DVDist(S) == \/ Has(S, {"vdist"}) \/ Has(S, {"idist", "len"}) \/ Has(S, {"vtx", "dir"}) \/ Has(S, {"x0", "vtx"})
DIDist(S) == \/ Has(S, {"idist"}) \/ Has(S, {"vdist", "len"}) \/ Has(S, {"x0", "dir"}) \/ Has(S, {"x0", "vtx"})
DTime(S) == DX0(S) /\ DVtx(S) /\ DEnergy(S) /\ DMass(S)
DFour(S) == DMom(S) /\ DEnergy(S)

Derivable(S, q) == CASE q = "mass" -> DMass(S) [] q = "energy" -> DEnergy(S) [] q = "ke" -> DKe(S)
    [] q = "mom" -> DMom(S) [] q = "dir" -> DDir(S) [] q = "len" -> DLen(S) [] q = "x0" -> DX0(S)
    [] q = "vtx" -> DVtx(S) [] q = "poca" -> DPoca(S) [] q = "vdist" -> DVDist(S) [] q = "idist" -> DIDist(S)
    [] q = "time" -> DTime(S) [] q = "four" -> DFour(S)

\* fixed-point scale of the observations (10^6), and the true value of each quantity
FX == 1000000
Sc(x) == x * FX
VSc(v) == <<Sc(v[1]), Sc(v[2]), Sc(v[3])>>
\* signed division rounding to nearest
RDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((-2 * a + b) \div (2 * b))
DirFx(s) == <<RDiv(Sc(s.D[1]), s.DN), RDiv(Sc(s.D[2]), s.DN), RDiv(Sc(s.D[3]), s.DN)>>
\* c times the flight time over distance L
FlightFx(s, L) == IF s.p = 0 \/ L <= 0 THEN 0 ELSE ((L * FX) \div s.p) * s.E + (((L * FX) % s.p) * s.E) \div s.p
True(s, q) == CASE q = "mass" -> <<Sc(s.m)>> [] q = "energy" -> <<Sc(s.E)>> [] q = "ke" -> <<Sc(KE(s))>>
    [] q = "mom" -> VSc(Mom(s)) [] q = "dir" -> DirFx(s) [] q = "len" -> <<Sc(s.L)>>
    [] q = "x0" -> VSc(s.x0) [] q = "vtx" -> VSc(Vtx(s)) [] q = "poca" -> VSc(Poca(s))
    [] q = "vdist" -> <<Sc(VDist(s))>> [] q = "idist" -> <<Sc(IDist(s))>>
    [] q = "time" -> <<FlightFx(s, s.L)>> [] q = "four" -> <<Sc(s.E)>> \o VSc(Mom(s))

\* numbers sent to the driver
Values(s) == [mass |-> s.m, energy |-> s.E, ke |-> KE(s), mom |-> Mom(s), dir |-> s.D, dn |-> s.DN, len |-> s.L,
              x0 |-> s.x0, vtx |-> Vtx(s), poca |-> Poca(s), vdist |-> VDist(s), idist |-> IDist(s), t0 |-> s.t0, hel |-> s.hel]
=============================================================================
