--------------------------- MODULE RandomStreamTrace ---------------------------
EXTENDS RandomStream, TraceLib
VARIABLES i
\* replay a history: the keys of its draws
Run(h) == LET g[k \in 0 .. Len(h)] == IF k = 0 THEN InitState ELSE Step(g[k-1], h[k]) IN g
Hist(o) == LET g == Run(o.ops)
               d == {[key |-> Key(g[k-1], o.ops[k]), u |-> o.res[k].u] : k \in {j \in 1 .. Len(o.ops) : o.ops[j].op \in Draws /\ o.ops[j].op # "point"}}
           IN FirstBad(<<
    <<"range", \A k \in 1 .. Len(o.ops) : o.ops[k].op \in Draws => o.res[k].inr>>,
    <<"seed", \A k \in 1 .. Len(o.ops) : o.res[k].s1 = g[k][1].s /\ o.res[k].s2 = g[k][2].s>>,
    <<"stream", \A a \in d, b \in d : a # b => Consistent(a, b)>>,
    <<"reference", \A k \in 1 .. Len(o.ops) : (o.ops[k].op \in Draws /\ o.ops[k].op # "point") => Abs(o.res[k].u - o.ref[g[k-1][o.ops[k].k].s][g[k-1][o.ops[k].k].n + 1]) <= 20>> >>)
Stat(o) == FirstBad(<<
    <<"in-range", o.rest = 0>>, <<"shares", \A k \in 1 .. Len(o.cnt) : Compatible(o.cnt[k], o.n, BP \div Len(o.cnt))>> >>)
Auto(o) == FirstBad(<< <<"generated-seed-reproduces", o.same>> >>)
V(o) == CASE o.g = "hist" -> Hist(o) [] o.g = "stat" -> Stat(o) [] o.g = "auto" -> Auto(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
