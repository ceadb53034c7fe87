------------------------------ MODULE KinTrace -------------------------------
(* Final states sampled by the real decays and cross sections (K01).            *)
EXTENDS Channels, TraceLib
SD == INSTANCE SamplerDensity
VARIABLE i
\* tolerance of a reconstructed mass, 1e-5 GeV: rounding grows with the energy
MTol(c) == 2 + (c.pm \div 10000000) + (((c.mom \div 100000) * c.x) \div 100)
MassIs(c, q, m) == Near(q[1], m, MTol(c)) /\ Near(q[2], m, MTol(c))
Rat(c, m) == Ratio(m, c.M)
Decays(c) == c.t = DEC
TwoBody(c, o) == \A a \in 1 .. 2 : LET m == Mass(c.s[a])  n == Mass(c.s[3 - a])  e == EStar(Rat(c, m), Rat(c, n)) IN
    MassIs(c, o.per[a], m) /\ Near(o.per[a][3], e, 4) /\ Near(o.per[a][4], e, 4)
\* three bodies: at least the own mass, at most what two others at relative rest leave
ThreeE(o, rs) == \A a \in 1 .. 3 : LET oth == (rs[1] + rs[2] + rs[3]) - rs[a] IN
    o.per[a][3] >= rs[a] - 4 /\ o.per[a][4] <= EStar(rs[a], oth) + 6
HnlThreeOk(c, o) == /\ \A a \in 1 .. 3 : MassIs(c, o.per[a], Mass(c.s[a]))
                    /\ ThreeE(o, [a \in 1 .. 3 |-> Rat(c, Mass(c.s[a]))])
CharmMasses(p) == {m[1] : m \in CharmMix(p)}
MixNear(c, m) == \E q \in CharmMasses(c.p) : Near(m, q, MTol(c))
CharmThreeOk(c, o) == /\ \A q \in 1 .. Len(o.mix) : MixNear(c, o.mix[q][1])
                      /\ MassIs(c, o.per[2], Mass(c.s[2])) /\ MassIs(c, o.per[3], 0)
                      /\ LET lo == CHOOSE m \in CharmMasses(c.p) : \A n \in CharmMasses(c.p) : m <= n
                         hi == CHOOSE m \in CharmMasses(c.p) : \A n \in CharmMasses(c.p) : m >= n
                             l == Rat(c, Mass(c.s[2]))
                         IN /\ o.per[1][3] >= Rat(c, lo) - 4 /\ o.per[1][4] <= EStar(Rat(c, hi), l) + 6
                            /\ o.per[2][3] >= l - 4 /\ o.per[2][4] <= EStar(l, Rat(c, lo)) + 6
                            /\ o.per[3][4] <= EStar(0, Rat(c, lo) + l) + 6
Whole(c, o) == MassIs(c, o.per[1], c.pm) /\ Near(o.per[1][3], 10000, 2) /\ Near(o.per[1][4], 10000, 2)
Bodies(c, o) == CASE c.k \in {"dipole", "ew"} -> TwoBody(c, o)
                  [] c.k = "hnl" -> IF Len(c.s) = 2 THEN TwoBody(c, o) ELSE HnlThreeOk(c, o)
                  [] c.k \in {"charm", "charm3"} -> IF Len(c.s) = 3 THEN CharmThreeOk(c, o) ELSE Whole(c, o)
                  [] c.k = "elastic" -> MassIs(c, o.per[c.nu + 1], 0) /\ MassIs(c, o.per[2 - c.nu], 51)
                  [] c.k = "dummy" -> MassIs(c, o.per[1], 0) /\ o.per[2][1] >= c.tm - MTol(c)
                  [] c.k = "table" -> MassIs(c, o.per[c.nu + 1], c.M) /\ MassIs(c, o.per[2 - c.nu], c.tm)
                  [] c.k = "dark" -> MassIs(c, o.per[1], c.M) /\ MassIs(c, o.per[2], c.tm + (IF c.inel THEN 10000 ELSE 0))
SumSeq(s) == LET g[k \in 0 .. Len(s)] == IF k = 0 THEN 0 ELSE g[k-1] + s[k] IN g[Len(s)]
Round(o) == LET tot == SumSeq(o.azi) IN tot = 0 \/ Len(o.c.s) = 1 \/ \A k \in 1 .. 8 : SD!Compatible(o.azi[k], tot, 1250, 1)
\* helicities in halves
Hel(c) == CASE c.k = "dipole" -> (IF c.s[1] = 22 THEN <<2 * SgnC(c.h), -c.h>> ELSE <<-c.h, 2 * SgnC(c.h)>>)
            [] c.k = "hnl" /\ Len(c.s) = 2 -> <<-c.h, 2 * SgnC(c.h)>>
            [] c.k = "elastic" -> (IF c.nu = 0 THEN <<c.h, 1>> ELSE <<1, c.h>>)
            [] c.k = "dummy" -> <<c.h, 1>> [] c.k = "dark" -> <<-c.h, 1>>
            [] c.k = "table" -> LET v == IF c.maj THEN -SgnC(c.h) ELSE SgnC(c.h) IN <<v, v>>
            [] OTHER -> <<>>
HelOk(c, o) == (c.k \in {"dipole", "elastic", "dummy", "table", "dark"} \/ (c.k = "hnl" /\ Len(c.s) = 2)) => o.hels = <<Hel(c)>>
Inside(c, o) == c.k \in {"elastic", "table", "dark"} => (o.zlo >= -20 /\ o.zhi <= 10020 /\ o.ydiff <= 2000)
Some(c, o) == IF c.k = "dummy" THEN o.skipped * 20 <= c.n ELSE o.skipped = 0
Verdict(o) == LET c == o.c IN FirstBad(<<
   <<"ran", o.failed = FALSE>>,
   <<"sampled", o.failed = FALSE /\ o.thrown = 0>>,
   <<"final state complete", o.failed = FALSE /\ o.types = 0>>,
   <<"primary unchanged", o.failed = FALSE /\ o.prim = 0>>,
   <<"finite", o.failed = FALSE /\ o.nonfinite = 0 /\ o.fspthrown = 0 /\ Some(c, o)>>,
   <<"energies not negative", o.failed = FALSE /\ o.negative = 0>>,
   <<"four-momentum conserved", o.failed = FALSE /\ o.cons <= 1000>>,
   <<"on shell", o.failed = FALSE /\ o.shell <= 1000>>,
   <<"bodies", o.failed = FALSE /\ (c.n > 0 => Bodies(c, o))>>,
   <<"kinematic range", o.failed = FALSE /\ Inside(c, o)>>,
   <<"azimuth", o.failed = FALSE /\ Round(o)>>,
   <<"helicities", o.failed = FALSE /\ HelOk(c, o)>> >>)
Init == i = 1
Next == /\ i <= Len(T) /\ Report(i, Verdict(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
