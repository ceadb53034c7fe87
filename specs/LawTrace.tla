------------------------------ MODULE LawTrace -------------------------------
(* Many final states of one process, in bins of the variable in which its law   *)
(* is written, and the density that the process reports for them (K02).         *)
EXTENDS Channels, TraceLib
SD == INSTANCE SamplerDensity
VARIABLE i
SumSeq(s) == LET g[k \in 0 .. Len(s)] == IF k = 0 THEN 0 ELSE g[k-1] + s[k] IN g[Len(s)]
\* share of bin k of 8, and the density at v, both in 1/10000
TabMid(c, o, k) == IF c.z THEN 625 * (2 * k - 1) ELSE o.ylo + (((2 * k - 1) * (o.yhi - o.ylo)) \div 16)
TabNorm(c, o) == (TabMid(c, o, 1) + TabMid(c, o, 8)) \div 2
TabVal(c, v) == 10000 * TabA(c) + TabB(c) * v
TabShare(c, o, k) == (1250 * TabVal(c, TabMid(c, o, k))) \div TabVal(c, TabNorm(c, o))
TabDens(c, v) == (1000 * TabVal(c, v)) \div TabTot1000(c)
ElasCut(c, k) == (ElasYmax(c) * k) \div 8
ElasShare(c, k) == ((ElasInt(c, ElasCut(c, k)) - ElasInt(c, ElasCut(c, k - 1))) * 10000) \div ElasInt(c, ElasYmax(c))
ElasDens(c, v) == (ElasDiff(c, v) * 10000) \div ElasInt(c, ElasYmax(c))
DarkShare(c, k) == (1250 * DarkVal(c, DarkA + (((2 * k - 1) * (DarkB(c) - DarkA)) \div 16))) \div DarkVal(c, (DarkA + DarkB(c)) \div 2)
Angular(c) == c.k \in {"dipole", "hnl", "ew"}
Semi(c) == c.k \in {"charm", "charm3"} /\ Len(c.s) = 3
Share(c, o, k) == CASE Angular(c) -> ShareCos(Alpha(c), k)
                    [] c.k = "elastic" -> ElasShare(c, k)
                    [] c.k = "table" -> TabShare(c, o, k)
                    [] c.k = "dark" -> DarkShare(c, k)
                    [] OTHER -> 1250
Count(c, o, k) == IF c.k = "dummy" /\ k = 8 THEN o.bins[8] + o.skipped ELSE o.bins[k]
Binned(c) == Len(c.s) > 1
Follows(c, o) == Binned(c) => \A k \in 1 .. 8 : SD!Compatible(Count(c, o, k), c.n, Share(c, o, k), 1)
AllDrawn(c, o) == Binned(c) => SumSeq(o.bins) + o.skipped = c.n
\* ---- the reported density ---------------------------------------------------------------
DensTol(m) == 3 + (m \div 500)
Dens(c, v) == CASE Angular(c) -> DensCos(Alpha(c), v)
                [] c.k = "elastic" -> ElasDens(c, v)
                [] c.k = "table" -> TabDens(c, v)
                [] c.k = "dark" -> (10000 * DarkVal(c, v)) \div DarkInt(c)
                [] OTHER -> 10000
\* a channel whose width vanishes (K*0; hadrons below the sum of the mesons) has no density
NoWidth(c, o) == c.k = "hnl" /\ c.s[2] \in {313, HAD} /\ \A q \in 1 .. Len(o.ev) : o.ev[q][2] = 0
Reported(c, o) == Semi(c) \/ NoWidth(c, o) \/ \A q \in 1 .. Len(o.ev) : LET m == Dens(c, o.ev[q][1]) IN Near(o.ev[q][2], m, DensTol(m))
\* ---- semileptonic charm: mixture of hadrons, and q2 for each of them ----------------------------
MixShare(c, m) == LET x == CHOOSE q \in CharmMix(c.p) : Near(q[1], m, 3) IN x[2]
KnownMass(c, m) == \E q \in CharmMix(c.p) : Near(q[1], m, 3)
Merge(c, o, t) == LET n == {q \in 1 .. Len(o.mix) : Near(o.mix[q][1], t, 3)} IN
    LET g[S \in SUBSET n] == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN o.mix[x][2] + g[S \ {x}] IN g[n]
Mixture(c, o) == Semi(c) => /\ \A q \in 1 .. Len(o.mix) : KnownMass(c, o.mix[q][1])
                            /\ \A m \in CharmMix(c.p) : SD!Compatible(Merge(c, o, m[1]), c.n, m[2], 1)
Q2(c, o) == Semi(c) => \A q \in 1 .. Len(o.q2) : LET w == o.q2[q]  tot == SumSeq(w.n)  all == SumSeq(w.share) IN
    /\ KnownMass(c, w.m)
    /\ tot > 500 => (/\ Near(all, MixShare(c, w.m), 5 + (all \div 200))
                     /\ \A k \in 1 .. 8 : SD!Compatible(w.n[k], tot, (w.share[k] * 10000) \div all, 1))
Round(c, o) == (Len(c.s) > 1 /\ SumSeq(o.azi) > 0) => \A k \in 1 .. 8 : SD!Compatible(o.azi[k], SumSeq(o.azi), 1250, 1)
Verdict(o) == LET c == o.c  ok == o.failed = FALSE IN FirstBad(<<
   <<"ran", ok>>,
   <<"sampled", ok /\ o.thrown = 0 /\ o.types = 0 /\ o.nonfinite = 0 /\ o.fspthrown = 0 /\ AllDrawn(c, o)>>,
   <<"law of the final states", ok /\ Follows(c, o)>>,
   <<"azimuth", ok /\ Round(c, o)>>,
   <<"reported density", ok /\ Reported(c, o)>>,
   <<"mixture of hadrons", ok /\ Mixture(c, o)>>,
   <<"momentum transfer", ok /\ Q2(c, o)>> >>)
Init == i = 1
Next == /\ i <= Len(T) /\ Report(i, Verdict(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
