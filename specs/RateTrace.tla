------------------------------ MODULE RateTrace ------------------------------
(* Signatures, widths, lengths and cross sections that the real processes       *)
(* report (K03), against Channels.                                              *)
EXTENDS Channels, TraceLib
VARIABLE i
Set(s) == {s[q] : q \in 1 .. Len(s)}
Distinct(s) == Cardinality(Set(s)) = Len(s)
Pct(m) == 5 + (m \div 200)
\* ---- decays -----------------------------------------------------------------------------
Prims(c) == IF Len(c.ps) = 0 THEN Parents(c.k) ELSE Set(c.ps)
Listed(k, p) == {<<p, DEC, s>> : s \in States(k, p)}
AllListed(c) == UNION {Listed(c.k, p) : p \in Prims(c)}
\* 3 nu: G^2 M^5 / (192 pi^3) in units of G^2 M^3 / (16 pi), 1e-6
Phase(mm) == IF mm < 1000000 THEN LET m == mm \div 100  q == m * m IN IF q < 200000 THEN (8443 * q) \div 1000000 ELSE (8443 * (q \div 1000)) \div 1000
             ELSE 8443 * ((mm \div 100000) * (mm \div 100000))
Times(x, f) == (x \div 10000) * f + (((x % 10000) * f) \div 10000)       \* x * f / 10000
USum(c) == c.c[1] * c.c[1] + c.c[2] * c.c[2] + c.c[3] * c.c[3]
Q(c, m) == Square(Ratio(m, c.M))
BosonW(c, l) == LET q == Q(c, 8037900) IN IF c.M <= 8037900 THEN 0 ELSE 100 * ((((((10000 - q) * (10000 - q)) \div 10000) * (10000 + 2 * q)) \div 10000))
BosonZ(c, l) == LET q == Q(c, 9118760)  w == Q(c, 8037900) IN
    IF c.M <= 9118760 THEN 0 ELSE 50 * ((((((10000 - q) * (10000 - q)) \div 10000) * (10000 + ((2 * w * 10000) \div 7688))) \div 10000))
ThreeSame(s) == AbsC(s[2]) = AbsC(s[3])
\* the mixing with the lepton of a signature, and with the others
SameCoef(c, l) == (5882 * U2(c, l) + 1257 * (USum(c) - U2(c, l))) \div 10000
CrossCoef(c, p, s) == IF c.maj THEN U2(c, s[2]) + U2(c, s[3]) ELSE IF p > 0 THEN U2(c, s[2]) ELSE U2(c, s[3])
RefCross(c) == IF c.maj THEN 20000 ELSE 10000
Massless(c, s) == c.M > 100 * Mass(s[2]) /\ c.M > 100 * Mass(s[3])
Shut(c, s) == Mass(s[2]) + Mass(s[3]) >= c.M
UnitOk(c, p, s, u) ==
  CASE c.k = "dipole" -> Near(u, U2(c, s[2]), 1)
    [] c.k = "ew" -> LET m == EwWidth(p, s) IN Near(u, m, 3 + (m \div 300))
    [] c.k \in {"charm", "charm3"} -> LET m == CharmWidth(p, s) IN Near(u, m, 3 + (m \div 300))
    [] c.k = "hnl" /\ Len(s) = 2 ->
         LET x == s[2]  U == Nature(c) * U2(c, s[1]) IN
         (CASE IsMeson(x) -> LET m == Times(MesonWidth(c.M, s[1], x), U) IN Near(u, m, 5 + (m \div 70) + ((MesonK(x) * (U \div 100)) \div 30000))
           [] AbsC(x) = 24 -> LET m == Times(BosonW(c, s[1]), U) IN Near(u, m, Pct(m) + U \div 20)
           [] x = 23 -> LET m == Times(BosonZ(c, s[1]), U) IN Near(u, m, Pct(m) + U \div 20)
           [] x = HAD -> u >= 0 /\ (c.M <= 100000 => u = 0) /\ (U = 0 => u = 0))
    [] OTHER ->
         IF s[1] = 5910 /\ s[2] = -5910 THEN LET m == Times(Phase(c.M), Nature(c) * USum(c)) IN Near(u, m, Pct(m) + 3 * (USum(c) \div 5000))
         ELSE IF Shut(c, s) THEN u = 0
         ELSE IF ~Massless(c, s) THEN u >= 0
         ELSE IF ThreeSame(s) THEN LET m == Times(Phase(c.M), Nature(c) * SameCoef(c, s[2])) IN Near(u, m, 3 + USum(c) \div 5000 + (m \div 50))
         ELSE LET m == Times(Phase(c.M), CrossCoef(c, p, s)) \div 2 IN Near(u, m, 3 + USum(c) \div 5000 + (m \div 50))
\* relative to unit couplings (1e-4); -1: both vanish
RatioOk(c, p, s, r) ==
  CASE c.k \in {"ew", "charm", "charm3"} -> r = 10000 \/ (r = -1 /\ c.k = "ew" /\ EwWidth(p, s) = 0)
    [] Len(s) = 2 -> LET l == IF c.k = "dipole" THEN s[2] ELSE s[1] IN (r = -1 /\ (c.k = "hnl")) \/ Near(r, U2(c, l), 1 + (U2(c, l) \div 500))
    [] s[1] = 5910 /\ s[2] = -5910 -> Near(r, USum(c) \div 3, 2)
    [] Shut(c, s) -> r = -1
    [] ThreeSame(s) -> r >= 0 /\ (Massless(c, s) => Near(r, (SameCoef(c, s[2]) * 10000) \div 8396, 5 + USum(c) \div 100))
    [] OTHER -> Near(r, (CrossCoef(c, p, s) * 10000) \div RefCross(c), 2 + IF c.maj THEN USum(c) \div 5 ELSE 0)
\* relative to the other nature
NatOk(c, s, r) ==
  r = -1 \/ CASE c.k = "hnl" /\ ~(Len(s) = 3 /\ AbsC(s[2]) # AbsC(s[3]) /\ s[1] # 5910 /\ s[1] # -5910) /\ ~(Len(s) = 3 /\ AbsC(s[2]) # AbsC(s[3]))
                       -> r = IF c.maj THEN 5000 ELSE 20000
              [] c.k = "hnl" -> r >= 0 \/ r = -2
              [] OTHER -> r = 10000
Rows(c, w) == \A q \in 1 .. Len(w.sigs) : LET s == w.sigs[q][3] IN UnitOk(c, w.p, s, w.unit[q])
Ratios(c, w) == \A q \in 1 .. Len(w.sigs) : RatioOk(c, w.p, w.sigs[q][3], w.ratio[q])
Natures(c, w) == \A q \in 1 .. Len(w.sigs) : NatOk(c, w.sigs[q][3], w.nat[q])
Zero(w, q) == w.share[q] = 0 /\ w.unit[q] = 0
Lens(c, w) == \A q \in 1 .. Len(w.sigs) : Near(w.len[q], 1000000, 3) \/ (w.len[q] = -1 /\ Zero(w, q))
SumSeq(s) == LET g[k \in 0 .. Len(s)] == IF k = 0 THEN 0 ELSE g[k-1] + s[k] IN g[Len(s)]
Totals(c, w) == IF w.p \notin Prims(c) THEN TRUE
                ELSE Near(w.total, 1000000, 3) /\ Near(w.allfinal, 1000000, 3) /\
                     (IF SumSeq(w.share) = 0 THEN w.lenall = -1 ELSE Near(w.lenall, 1000000, 3) /\ Near(SumSeq(w.share), 1000000, Len(w.share) + 3))
Sigs(c, w) == IF w.p \in Prims(c) THEN ~w.threw /\ Distinct(w.sigs) /\ Set(w.sigs) = Listed(c.k, w.p)
              ELSE TRUE
EachW(c, o, P(_, _)) == \A q \in 1 .. Len(o.parents) : P(c, o.parents[q])
WidthVerdict(c, o) == FirstBad(<<
   <<"all signatures", Distinct(o.all) /\ Set(o.all) = AllListed(c)>>,
   <<"signatures of a parent", EachW(c, o, Sigs)>>,
   <<"widths", EachW(c, o, Rows)>>,
   <<"couplings", EachW(c, o, Ratios)>>,
   <<"nature", EachW(c, o, Natures)>>,
   <<"decay lengths", EachW(c, o, Lens)>>,
   <<"totals", EachW(c, o, Totals)>> >>)
\* ---- a W or Z signature that may not exist ----------------------------------------------------
RECURSIVE SumEw(_, _)
SumEw(p, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN EwWidth(p, x) + SumEw(p, S \ {x})
EwTotal(p) == SumEw(p, States("ew", p))
QueryVerdict(c, o) == FirstBad(<<
   <<"unknown signature has no width", (c.s \notin States("ew", c.p) /\ <<c.s[2], c.s[1]>> \notin States("ew", c.p)) => o.w = 0>>,
   <<"branching fraction", c.s \in States("ew", c.p) => LET m == ((EwWidth(c.p, c.s) \div 10) * 1000) \div (EwTotal(c.p) \div 10000) IN Near(o.w, m, 20 + (m \div 200))>> >>)
\* ---- cross sections -----------------------------------------------------------------------
Neutrinos == {12, -12, 14, -14, 16, -16}
XPrims(c) == IF Len(c.ps) > 0 THEN Set(c.ps) ELSE CASE c.k = "elastic" -> {12, 14} [] c.k = "dark" -> {12, -14} [] OTHER -> Neutrinos
XTargets(c) == CASE c.k = "elastic" -> {11} [] c.k = "dummy" -> {NUC} [] c.k = "dark" -> {H1, C12} [] OTHER -> {H1, C12, AR40}
XState(c, p, t) == CASE c.k = "elastic" -> <<p, 11>> [] c.k = "dummy" -> <<p, NUC>> [] OTHER -> <<SgnC(p) * N4, t>>
XAll(c) == {<<p, t, XState(c, p, t)>> : p \in XPrims(c), t \in XTargets(c)}
Valid(c) == c.p \in XPrims(c) /\ c.t \in XTargets(c)
Energy(c) == c.mom * c.x
Low(c) == c.k = "table" /\ Energy(c) < TabThreshold(c)
NearLow(c) == c.k = "table" /\ Near(Energy(c), TabThreshold(c), 5 + (TabThreshold(c) \div 5000))
Outside(c) == c.k = "table" /\ (Energy(c) < 50000 \/ Energy(c) > 5000000)
Edge(c) == c.k = "table" /\ Energy(c) \in {50000, 5000000}
D2(c) == IF c.k = "table" THEN c.c[1] * c.c[1] ELSE 10000
XTot(c) == CASE c.k = "elastic" -> 10 * ElasInt(c, ElasYmax(c))
             [] c.k = "dummy" -> (c.mom \div 100000) * c.x * 10
             [] c.k = "dark" -> DarkTot1000(c)
             [] OTHER -> (TabTot1000(c) * (D2(c) \div 100)) \div 100
\* v: the variable of the table, in 1/10000
XDiff(c, o, y, f) == CASE c.k = "elastic" -> 10 * ElasDiff(c, y)
               [] c.k = "dummy" -> XTot(c)
               [] c.k = "dark" -> (DarkVal(c, y) * (Energy(c) \div 100)) \div 10000
               [] OTHER -> ((1000 * TabA(c) + ((TabB(c) * (IF c.z THEN f ELSE y)) \div 10)) * (D2(c) \div 100)) \div 100
F5 == <<500, 2500, 5000, 7500, 9500>>
Tol(m) == 6 + (m \div 400)
ElTol(c, m) == IF c.k = "elastic" THEN 60 + (m \div 400) ELSE Tol(m)
XRows(c, o) == \A q \in 1 .. 5 : LET r == o.diff[q]  m == XDiff(c, o, r[1], F5[q])  t == XTot(c) IN
    /\ Near(r[2], m, ElTol(c, m))
    /\ IF t = 0 THEN r[3] = 0 ELSE LET d == IF m < 200000 THEN (m * 10000) \div t ELSE ((m \div 100) * 10000) \div (t \div 100) IN Near(r[3], d, 20 + (d \div 150))
XVerdict(c, o) == FirstBad(<<
   <<"all signatures", Distinct(o.all) /\ Set(o.all) = XAll(c)>>,
   <<"targets", Set(o.targets) = XTargets(c) /\ Distinct(o.targets)>>,
   <<"primaries", Set(o.primaries) = XPrims(c) /\ Distinct(o.primaries)>>,
   <<"targets of a primary", c.p \in XPrims(c) => Set(o.tfp) = XTargets(c)>>,
   <<"signatures of a primary and a target", IF Valid(c) THEN o.sfp = <<<<c.p, c.t, XState(c, c.p, c.t)>>>> ELSE o.sfp = <<>>>>,
   <<"threshold", (Valid(c) /\ c.k = "table") => Near(o.thr, TabThreshold(c), 5 + (TabThreshold(c) \div 5000))>>,
   <<"no threshold", (Valid(c) /\ c.k # "table") => o.thr = 0>>,
   <<"nothing below the threshold", (Valid(c) /\ Low(c) /\ ~NearLow(c)) => (o.tot = 0 /\ o.allfinal = 0 /\ \A q \in 1 .. 5 : o.diff[q][2] = 0)>>,
   <<"total", (Valid(c) /\ ~Low(c) /\ ~NearLow(c) /\ ~Edge(c)) => IF Outside(c) THEN o.tot = -3 ELSE Near(o.tot, XTot(c), ElTol(c, XTot(c)))>>,
   <<"total of all final states", (Valid(c) /\ ~Low(c) /\ ~NearLow(c) /\ ~Edge(c)) => o.allfinal = o.tot>>,
   <<"no total without signatures", ~Valid(c) => o.allfinal = 0>>,
   <<"differential", (Valid(c) /\ ~Low(c) /\ ~NearLow(c) /\ ~Edge(c) /\ ~Outside(c)) => XRows(c, o)>> >>)
Verdict(o) == IF o.failed THEN "ran" ELSE
   CASE o.c.op = "width" -> WidthVerdict(o.c, o) [] o.c.op = "query" -> QueryVerdict(o.c, o) [] OTHER -> XVerdict(o.c, o)
Init == i = 1
Next == /\ i <= Len(T) /\ Report(i, Verdict(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
