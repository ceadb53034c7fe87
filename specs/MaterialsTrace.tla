----------------------------- MODULE MaterialsTrace -----------------------------
(* One observation per history: after every operation the whole model as seen     *)
(* through its interface. part: moles per gram in 1e-9; share: 1e-9; rad: inverse *)
(* radiation length in 1e-7; radall/radsome: radiation fractions in 1e-4.          *)
EXTENDS Materials, TraceLib
VARIABLES i
Fn(q) == [c \in {q[k][1] : k \in 1 .. Len(q)} |-> q[CHOOSE k \in 1 .. Len(q) : q[k][1] = c][2]]
RECURSIVE Apply(_, _)
Apply(x, l) == IF l = <<>> THEN x ELSE Apply(Define(x, Head(l).n, Fn(Head(l).q)), Tail(l))
Close(v, w) == v # 2147483647 /\ Abs(v - w) <= 300 + (Abs(w) \div 50000)
\* the nuclei with a positive share decide about the rest
SameSet(s, S) == {s[k] : k \in 1 .. Len(s)} = S /\ Len(s) = Cardinality(S)
MatBad(x, w) == LET c == w.comp IN FirstBad(<<
    <<"name", x.name = w.n /\ x.hasId /\ x.hasName>>,
    <<"targets", SameSet(x.targets, Targets(c))>>,
    <<"constituents", SameSet(x.constituents, Targets(c))>>,
    <<"mass-fraction", \A k \in 1 .. Len(x.probe) : Close(x.share[k], Share(x.probe[k], c))>>,
    <<"particles-per-gram", \A k \in 1 .. Len(x.probe) : Close(x.part[k], Particles(x.probe[k], c))>>,
    <<"vector-queries-agree", x.same>>,
    <<"radiation-length", Abs(x.rad - Radiation(c)) <= 20 + (Radiation(c) \div 2000)>>,
    <<"radiation-fractions", \A k \in 1 .. Len(x.radall) : Near(x.radall[k], RadShare(x.probe[k], {x.probe[l] : l \in 1 .. Len(x.probe)}, c), 5)>>,
    <<"radiation-fractions-of-some", LET p == x.some IN \A k \in 1 .. Len(p) : Near(x.radsome[k], RadShare(p[k], {p[l] : l \in 1 .. Len(p)}, c), 5)>> >>)
RECURSIVE MatsBad(_, _, _)
MatsBad(xs, m, k) == IF k > Len(m) THEN "" ELSE LET b == MatBad(xs[k], m[k]) IN IF b # "" THEN b ELSE MatsBad(xs, m, k + 1)
StepBad(s, m) == IF s.refused THEN "refused"
                 ELSE IF ~(s.n = Len(m) /\ ~s.hasNext /\ ~s.hasNeg /\ ~s.hasNone) THEN "how-many"
                 ELSE IF \E k \in 1 .. Len(s.ids) : s.ids[k].id # IdOf(m, s.ids[k].n) THEN "ids"
                 ELSE IF ~s.equal THEN "copy-equal"
                 ELSE MatsBad(s.mats, m, 1)
RECURSIVE HistBad(_, _, _)
HistBad(o, m, k) == IF k > Len(o.ops) THEN "" ELSE LET w == Apply(m, o.ops[k].l) b == StepBad(o.steps[k], w) IN IF b # "" THEN b ELSE HistBad(o, w, k + 1)
\* nuclei: counts and molar masses (1e-6 g/mol)
MassBad(o) == FirstBad(<<
    <<"nucleon-counts", \A k \in 1 .. Len(o.l) : LET x == o.l[k] IN x.z = x.Z /\ x.a = x.A /\ x.s = x.L /\ x.n = x.A - x.Z - x.L>>,
    <<"mass-known", \A w \in Measured : \E k \in 1 .. Len(o.l) : o.l[k].L = 0 /\ o.l[k].Z = w[1] /\ o.l[k].A = w[2] /\ Abs(o.l[k].m - w[3]) <= 5>>,
    <<"mass-formula", \A w \in Formula : \E k \in 1 .. Len(o.l) : o.l[k].L = w[1] /\ o.l[k].Z = w[2] /\ o.l[k].A = w[3] /\ Abs(o.l[k].m - w[4]) <= 5>>,
    <<"mass-smooth", \A k \in 1 .. Len(o.l) : o.l[k].d # 2147483647 => Abs(o.l[k].d) <= (IF o.l[k].A < 20 THEN 25000 ELSE IF o.l[k].A <= 60 THEN 13000 ELSE 8000)>>,
    <<"mass-binding", \A k \in 1 .. Len(o.l) : Abs(o.l[k].b) <= 28000>> >>)
SpecialBad(o) == FirstBad(<<
    <<"proton", o.p = <<1, 0, 1, 0, 1007825>> >>, <<"neutron", o.n = <<0, 1, 1, 0, 1008665>> >>, <<"nucleon", o.N = <<0, 0, 1, 0, 1008245>> >>, <<"electron", o.e = <<0, 0, 0, 0, 549>> >> >>)
FileBad(o) == FirstBad(<< <<"bad-file-refused", o.refused>> >>)
V(o) == CASE o.g = "hist" -> HistBad(o, <<>>, 1) [] o.g = "masses" -> MassBad(o) [] o.g = "special" -> SpecialBad(o) [] o.g = "badfile" -> FileBad(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
