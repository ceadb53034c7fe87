-------------------------- MODULE InteractionTotals --------------------------
(* A collection of interactions of one primary: cross sections (each a         *)
(* sequence of channels <<target, final state, strength>>) and decays (each a   *)
(* sequence of <<final state, width>>). The strength of every channel grows     *)
(* linearly with the primary energy, so that the record has to be passed on.   *)
EXTENDS Integers, Sequences, FiniteSets

XsPool == << << <<1, 1, 3>> >>, << <<1, 1, 2>>, <<1, 2, 7>> >>, << <<2, 1, 5>>, <<1, 1, 1>> >>,
             << <<3, 2, 4>>, <<2, 2, 0>>, <<3, 1, 6>> >>, <<>> >>
DecPool == << << <<1, 2>> >>, << <<1, 0>>, <<2, 0>> >>, << <<2, 1>>, <<1, 3>> >> >>
\* configuration: xs, dec: sequences of pool indices; order: "x"/"d" interleaving is the driver's business
SumSeq(s, f(_)) == LET g[k \in 0 .. Len(s)] == IF k = 0 THEN 0 ELSE g[k-1] + f(s[k]) IN g[Len(s)]
Targets(x) == {XsPool[x][k][1] : k \in 1 .. Len(XsPool[x])}
AllTargets(xs) == UNION {Targets(xs[k]) : k \in 1 .. Len(xs)}
\* positions (1-based) of the cross sections that act on a target, in the order given
RECURSIVE ByTarget(_, _, _)
ByTarget(xs, t, k) == IF k > Len(xs) THEN <<>> ELSE (IF t \in Targets(xs[k]) THEN <<k>> ELSE <<>>) \o ByTarget(xs, t, k + 1)
\* strength of one final state, and of all final states
Strength(x, t, f) == SumSeq(XsPool[x], LAMBDA c : IF c[1] = t /\ c[2] = f THEN c[3] ELSE 0)
StrengthAll(x, t) == SumSeq(XsPool[x], LAMBDA c : IF c[1] = t THEN c[3] ELSE 0)
Total(xs, t, f, e) == e * SumSeq(xs, LAMBDA x : Strength(x, t, f))
TotalAll(xs, t, e) == e * SumSeq(xs, LAMBDA x : StrengthAll(x, t))
WidthAll(d) == SumSeq(DecPool[d], LAMBDA c : c[2])
Width(d, f) == SumSeq(DecPool[d], LAMBDA c : IF c[1] = f THEN c[2] ELSE 0)
TotalWidth(dec) == SumSeq(dec, LAMBDA d : WidthAll(d))
Inf == 2147483647
K == 1000000
\* decay length over hbar c: (p/m) / width
Len0(p, m, w) == IF w = 0 THEN Inf ELSE ((p * K) \div m) \div w
=============================================================================
