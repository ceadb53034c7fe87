------------------------------- MODULE ReachTrace ------------------------------
EXTENDS Reach, TraceLib
VARIABLE i
Tol(x) == 2 + (x \div 100000)
Decay(o) == LET c == o.c  s == 10000  want == Reached(c.t, c.mu, c.mx, s)  len == Length(c.t, s) IN FirstBad(<<
    <<"the length is boost times hbar c over the width", Near(o.length, len, Tol(len)) /\ Near(o.static, len, Tol(len))>>,
    <<"the range is the multiple of the length up to the limit", Near(o.range, want, Tol(want)) /\ Near(o.call, want, Tol(want))>>,
    <<"stable particles reach the limit", o.stable>>,
    <<"parameters read back", o.get>> >>)
\* one object through a history: what it answered after each call
Step(f, x, op) == FirstBad(<<
    <<"parameters read back", x.mu = f.mu /\ x.tau = f.tau /\ x.scale = f.scale /\ x.max = f.max>>,
    <<"depth", (op.o = "ask" /\ f.scale = 1 /\ f.mu # <<0, 0>> /\ f.tau # <<0, 0>>) => LET d == Depth(f, op.a, op.b) IN Near(x.v, 100 * d, 2 + (d \div 1000))>>,
    <<"depth of one loss", (op.o = "rel" /\ f.scale = 1 /\ f.max = 0) => Near(x.v, 100000 * (1 + op.b), 5)>>,
    <<"copies and reloads are equal", op.o \in {"reload", "copy"} => x.same>> >>)
RECURSIVE Walk(_, _, _, _)
Walk(f, os, xs, n) == IF n > Len(os) THEN "" ELSE LET g == After(f, os[n])  v == Step(g, xs[n], os[n]) IN IF v # "" THEN v ELSE Walk(g, os, xs, n + 1)
Lepton(o) == IF o.failed THEN "failed" ELSE IF Len(o.xs) # Len(o.c.ops) THEN "incomplete" ELSE Walk(Fresh, o.c.ops, o.xs, 1)
Pool(o) == LET n == Len(o.pool)  p == o.pool  I == 1 .. n IN FirstBad(<<
    <<"ran", o.failed = FALSE>>,
    <<"equality", o.failed = FALSE /\ \A a \in I, b \in I : o.eq[a][b] = (p[a] = p[b])>>,
    <<"order is total and follows equality", o.failed = FALSE /\ \A a \in I, b \in I : IF p[a] = p[b] THEN ~o.lt[a][b] /\ ~o.lt[b][a] ELSE o.lt[a][b] = ~o.lt[b][a]>>,
    <<"order is transitive", o.failed = FALSE /\ \A a \in I, b \in I : o.lt[a][b] => \A k \in I : o.lt[b][k] => o.lt[a][k]>>,
    <<"reloads are equal", o.failed = FALSE /\ \A a \in I : o.loaded[a]>>,
    <<"what follows is intact", o.failed = FALSE /\ o.behind>> >>)
V(o) == CASE o.g = "decay" -> Decay(o) [] o.g = "lepton" -> Lepton(o) [] o.g \in {"range", "depth"} -> Pool(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
================================================================================
