------------------------------- MODULE Channels -------------------------------
(* Decays and scatterings: which final states every process has, with the       *)
(* masses (1e-5 GeV) and charges (thirds) of the species, the kinematics of the *)
(* final states, the angular laws (in units of 1/10000), and the widths and     *)
(* cross sections relative to a fixed unit. Processes (field k of a case):      *)
(*   dipole  N -> nu gamma          hnl   N -> two or three bodies              *)
(*   ew      W, Z -> f f'           charm, charm3  D -> hadron l nu, hadrons    *)
(*   elastic nu e -> nu e           dummy nu N -> nu N                          *)
(*   table   nu A -> N A, from a table dsigma/dy = 1 + slope v                  *)
EXTENDS Integers, Sequences, FiniteSets
AbsC(x) == IF x < 0 THEN -x ELSE x
SgnC(x) == IF x < 0 THEN -1 ELSE 1
MinC(a, b) == IF a < b THEN a ELSE b
HAD == -2000001006
DEC == -2000001007
NUC == 2000002112
H1 == 1000010010
C12 == 1000060120
AR40 == 1000180400
N4 == 5914
Mass(p) == LET a == AbsC(p) IN
  CASE a = 11 -> 51 [] a = 13 -> 10566 [] a = 15 -> 177686
    [] a = 111 -> 13498 [] a = 211 -> 13957 [] a = 311 -> 49761 [] a = 321 -> 49368
    [] a = 313 -> 89600 [] a = 323 -> 89167 [] a = 221 -> 54786 [] a = 331 -> 95778
    [] a = 113 -> 77526 [] a = 213 -> 77511 [] a = 223 -> 78266 [] a = 333 -> 101946
    [] a = 421 -> 186484 [] a = 411 -> 186966 [] a = 431 -> 196835
    [] a = 24 -> 8037900 [] a = 23 -> 9118760
    [] a = 1 -> 471 [] a = 2 -> 232 [] a = 3 -> 9290 [] a = 4 -> 128000 [] a = 5 -> 419800 [] a = 6 -> 17330000
    [] OTHER -> 0
Charge(p) == LET a == AbsC(p) IN SgnC(p) *
  (CASE a \in {11, 13, 15} -> -3 [] a \in {24, 211, 321, 323, 213, 411, 431} -> 3
     [] a \in {2, 4, 6} -> 2 [] a \in {1, 3, 5} -> -1 [] OTHER -> 0)
RECURSIVE SumCharge(_)
SumCharge(s) == IF s = <<>> THEN 0 ELSE Charge(Head(s)) + SumCharge(Tail(s))
\* lepton number of a family (12: electron, 14: muon, 16: tau)
FamNum(f, p) == IF AbsC(p) \in {f, f - 1} THEN SgnC(p) ELSE 0
RECURSIVE SumFam(_, _)
SumFam(f, s) == IF s = <<>> THEN 0 ELSE FamNum(f, Head(s)) + SumFam(f, Tail(s))
SumLep(s) == SumFam(12, s) + SumFam(14, s) + SumFam(16, s)

\* ---- final states ---------------------------------------------------------------------
Nus == {12, 14, 16}
Leps == {11, 13, 15}
Neutral == {111, 221, 331, 113, 223, 313, 333, HAD, 23}
Charged == {211, 321, 213, 323, 411, 431, 24}
HnlTwo(p) == LET s == SgnC(p) IN
    {<<s * n, x>> : n \in Nus, x \in Neutral} \cup {<<s * l, s * x>> : l \in Leps, x \in Charged} \cup {<<s * l, HAD>> : l \in Leps}
HnlThree(p) == {<<5910, -5910, 5910>>} \cup {<<SgnC(p) * 5910, l, -l2>> : l \in Leps, l2 \in Leps}
Ups == {2, 4}                                                        \* the top quark is too heavy
Downs == {1, 3, 5}
States(k, p) ==
  CASE k = "dipole" -> IF AbsC(p) = N4 THEN {<<22, SgnC(p) * n>> : n \in Nus} ELSE {}
    [] k = "hnl" -> IF AbsC(p) = N4 THEN HnlTwo(p) \cup HnlThree(p) ELSE {}
    [] k = "ew" -> IF AbsC(p) = 24 THEN {<<-SgnC(p) * l, SgnC(p) * (l + 1)>> : l \in Leps} \cup {<<SgnC(p) * u, -SgnC(p) * d>> : u \in Ups, d \in Downs}
                   ELSE IF p = 23 THEN {<<f, -f>> : f \in Nus \cup Leps \cup Ups \cup Downs} ELSE {}
    [] k = "charm" -> (CASE AbsC(p) = 411 -> {<<-SgnC(p) * 311, -SgnC(p) * l, SgnC(p) * (l + 1)>> : l \in {11, 13}} \cup {<<HAD>>}
                         [] AbsC(p) = 421 -> {<<-SgnC(p) * 321, -SgnC(p) * l, SgnC(p) * (l + 1)>> : l \in {11, 13}} \cup {<<HAD>>}
                         [] AbsC(p) = 431 -> {<<HAD, -SgnC(p) * l, SgnC(p) * (l + 1)>> : l \in {11, 13}} \cup {<<HAD>>}
                         [] OTHER -> {})
    [] k = "charm3" -> (CASE p = 411 -> {<<-311, -l, l + 1>> : l \in {11, 13}} \cup {<<HAD>>}
                          [] p = 421 -> {<<-321, -l, l + 1>> : l \in {11, 13}} \cup {<<HAD>>}
                          [] OTHER -> {})
    [] OTHER -> {}
Parents(k) == CASE k = "dipole" -> {N4, -N4} [] k = "hnl" -> {N4, -N4} [] k = "ew" -> {24, -24, 23}
                [] k = "charm" -> {411, -411, 421, -421, 431, -431} [] k = "charm3" -> {411, 421} [] OTHER -> {}
\* anti(s): every particle replaced with its antiparticle (self-conjugate ones stay)
Anti(p) == IF p \in {22, 23, 111, 221, 331, 113, 223, 333, 313, HAD} THEN p ELSE -p

\* ---- kinematics: ratios to the parent mass in 1/10000 ------------------------------------
Ratio(m, mm) == IF m < 200000 THEN (m * 10000) \div mm ELSE (m * 100) \div (mm \div 100)
Square(r) == (r * r) \div 10000
SpeciesMass(k, p) == IF k = "charm" /\ p = HAD THEN 0 ELSE Mass(p)
RECURSIVE SumMass(_)
SumMass(s) == IF s = <<>> THEN 0 ELSE Mass(Head(s)) + SumMass(Tail(s))
Open(mm, s) == SumMass(s) < mm
\* energy in the rest frame of the parent, of the body with ratio r1 when the rest of the final state has ratio r2
EStar(r1, r2) == (10000 + Square(r1) - Square(r2)) \div 2

\* ---- angular laws -----------------------------------------------------------------------
VecAlpha(m, mm) == LET q == Square(Ratio(m, mm)) IN ((10000 - 2 * q) * 10000) \div (10000 + 2 * q)
\* asymmetry of the second (hnl: non-leptonic) body along the parent, for helicity sign h
Alpha(c) ==
  IF c.k \notin {"dipole", "hnl"} \/ c.maj THEN 0
  ELSE LET x == IF c.k = "dipole" THEN 22 ELSE c.s[c.xi + 1]
           a == CASE x \in {22, 111, 221, 331, HAD} -> 10000
                  [] x \in {23, 113, 223, 333, 313} -> VecAlpha(Mass(x), c.M)
                  [] OTHER -> 0
       IN -SgnC(c.h) * SgnC(c.p) * a
ShareCos(a, k) == 1250 + ((a * (2 * k - 9)) \div 64)
DensCos(a, x) == (10000 + ((a * x) \div 10000)) \div 2

\* ---- widths -----------------------------------------------------------------------------
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Root(n, 0, 40000)
Flav(l) == CASE AbsC(l) \in {11, 12} -> 1 [] AbsC(l) \in {13, 14} -> 2 [] OTHER -> 3
U2(c, l) == c.c[Flav(l)] * c.c[Flav(l)]                             \* in 1/10000
\* decay constants squared with CKM elements or couplings (1e-6 GeV^2); for vectors divided by the mass squared
MesonK(x) == LET a == AbsC(x) IN
  CASE a = 111 -> 8450 [] a = 221 -> 3329 [] a = 331 -> 4475
    [] a = 211 -> 16032 [] a = 321 -> 1248 [] a = 411 -> 2302 [] a = 431 -> 58721
    [] a = 113 -> 7031 [] a = 223 -> 466 [] a = 333 -> 6195 [] a = 313 -> 0
    [] a = 213 -> 46172 [] a = 323 -> 2044 [] OTHER -> 0
IsMeson(x) == AbsC(x) \in {111, 221, 331, 211, 321, 411, 431, 113, 223, 333, 313, 213, 323}
\* width of N -> l meson at unit mixing, in G^2 M^3 / (16 pi), 1e-6 GeV^2
MesonWidth(mm, l, x) ==
  LET q == Square(Ratio(Mass(x), mm))  p == Square(Ratio(Mass(l), mm))
      A == ((10000 - q) * (10000 - q)) \div 10000
      S == ISqrt(((10000 - q - p) * (10000 - q - p)) - (4 * q * p))
      B == 10000 - q - ((p * (20000 + q - p)) \div 10000)
      V == (((10000 - q) * (10000 + 2 * q)) \div 10000) - ((p * (20000 - q - p)) \div 10000)
      a == AbsC(x)
  IN IF Mass(x) + Mass(l) >= mm THEN 0
     ELSE CASE a \in {111, 221, 331} -> (MesonK(x) * A) \div 10000
            [] a \in {211, 321, 411, 431} -> (((MesonK(x) * B) \div 10000) * S) \div 10000
            [] a \in {113, 223, 333, 313} -> (((MesonK(x) * A) \div 10000) * (10000 + 2 * q)) \div 10000
            [] OTHER -> (((MesonK(x) * V) \div 10000) * S) \div 10000
Nature(c) == IF c.maj THEN 2 ELSE 1
\* CKM elements squared, 1e-6
V2(u, d) == LET a == AbsC(u) b == AbsC(d) IN
  CASE a = 2 /\ b = 1 -> 948676 [] a = 2 /\ b = 3 -> 51302 [] a = 2 /\ b = 5 -> 13
    [] a = 4 /\ b = 1 -> 51212 [] a = 4 /\ b = 3 -> 947118 [] a = 4 /\ b = 5 -> 1640 [] OTHER -> 0
\* partial widths of W and Z, in 1e-6 GeV
EwWidth(p, s) == LET f == AbsC(s[1]) IN
  IF p # 23 THEN (IF f \in Leps THEN 218330 ELSE (IF f = 6 THEN 0 ELSE LET v == V2(s[1], s[2]) IN (((v \div 100) * 65499) \div 1000) + (((v % 100) * 65) \div 100)))
  ELSE CASE f \in Nus -> 161086 [] f \in Leps -> 81058 [] f = 6 -> 0 [] f \in Ups -> 280289 [] OTHER -> 353357
\* charm: partial width over hbar, in 1e6 / s
CharmWidth(p, s) == LET a == AbsC(p) IN
  IF Len(s) = 3 THEN (CASE a = 411 -> 135288 [] a = 421 -> 136064 [] OTHER -> 129762)
  ELSE (CASE a = 411 -> 690962 [] a = 421 -> 2166301 [] OTHER -> 1724603)
\* hadron masses of a semileptonic charm decay and their shares (1/10000)
CharmMix(p) == LET a == AbsC(p) IN
  CASE a = 411 -> {<<49761, 6212>>, <<89167, 3788>>} [] a = 421 -> {<<49368, 6111>>, <<89167, 3889>>}
    [] OTHER -> {<<54786, 4600>>, <<95778, 1600>>, <<101946, 3800>>}

\* ---- cross sections ----------------------------------------------------------------------
\* neutrino-electron: F(y) = CLL^2 + CLR^2 (1-y)^2 - CLL CLR (m/E) y and its integral from 0; y in 1/10000, result 1e-5
ElasA(p) == IF AbsC(p) = 12 THEN 52940 ELSE 7453
ElasC(p) == IF AbsC(p) = 12 THEN 16982 ELSE -6372
ElasB == 5448
\* c.mom * c.x is the energy in 1e-5 GeV; the electron mass over it, in 1/10000
ElasM(c) == LET e == c.mom * c.x IN 511000 \div e
ElasDiff(c, y) == LET z == 10000 - y IN ElasA(c.p) + ((ElasB * ((z * z) \div 10000)) \div 10000) - ((((ElasC(c.p) * ElasM(c)) \div 10000) * y) \div 10000)
ElasInt(c, y) == LET z == 10000 - y  w == (((z * z) \div 10000) * z) \div 10000 IN
    (((ElasA(c.p) * (y \div 10)) \div 1000)) + ((ElasB * (10000 - w)) \div 30000) - ((((ElasC(c.p) * ElasM(c)) \div 10000) * ((y * y) \div 10000)) \div 20000)
ElasYmax(c) == (20000 * 10000) \div (20000 + ElasM(c))
Protons(t) == CASE t = C12 -> 6 [] t = AR40 -> 18 [] OTHER -> 1
TabZ(c) == IF c.inel /\ c.t # H1 THEN Protons(c.t) ELSE 0
\* constant and slope of dsigma/dv on the target
TabA(c) == IF c.t = H1 THEN 2 ELSE 1 + 2 * TabZ(c)
TabB(c) == IF c.t = H1 THEN 0 ELSE c.slope
TabTot1000(c) == LET e == (c.mom * c.x) \div 100 IN IF c.t = H1 THEN 5000 ELSE 3000 + e + 5000 * TabZ(c)
TabThreshold(c) == c.M + (((c.M \div 10) * (c.M \div 10)) \div (c.tm \div 50))
\* ---- upscattering with a given cross section: E (1 + slope f) per unit of f, the fraction of the kinematic range of Q2, between two fractions
DarkA == 2000
DarkB(c) == IF c.z THEN 10000 ELSE 9000
DarkVal(c, v) == 10000 + c.slope * v
DarkInt(c) == ((DarkB(c) - DarkA) * DarkVal(c, (DarkA + DarkB(c)) \div 2)) \div 10000
DarkTot1000(c) == (DarkInt(c) * ((c.mom * c.x) \div 100)) \div 10000
==============================================================================
