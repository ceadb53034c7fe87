-------------------------- MODULE ExternalEventsTrace --------------------------
EXTENDS ExternalEvents, TraceLib
VARIABLES i
BP == 10000
Compatible(cnt, tot, m, of) == LET e == (tot * m) \div of  d == Abs(cnt - e) - 3 IN d <= 0 \/ (d <= 40000 /\ d * d <= 36 * e + 100)
\* one distinct sampled event: e.n its count, and every field read back
Event(c, e) == LET s == e.s IN FirstBad(<<
    <<"row", Mult(c, s) > 0>>,
    <<"energy", e.E = IF Has(c, "E") THEN <<Cell("E", s)>> ELSE IF HasT(c, 3) /\ Has(c, "m") THEN <<5 * s>> ELSE <<>> >>,
    <<"mass", e.m = IF Has(c, "m") THEN <<Cell("m", s)>> ELSE IF HasT(c, 3) /\ Has(c, "E") THEN <<4 * s>> ELSE <<>> >>,
    <<"momentum", e.mom = Momentum(c, s)>>,
    <<"initial-position", e.x0 = InitialPosition(c, s)>>,
    <<"vertex", e.vtx = Vertex(c, s)>>,
    <<"time", e.t0 = IF Has(c, "t0") THEN Cell("t0", s) ELSE 0>>,
    <<"parameters", {e.par[k].k : k \in 1 .. Len(e.par)} = Extra(c)>>,
    <<"parameter-values", \A k \in 1 .. Len(e.par) : e.par[k].k \in Extra(c) => e.par[k].v = Cell(e.par[k].k, s)>> >>)
V(o) == LET c == o.c IN
    IF o.threw # Bad(c) THEN (IF o.threw THEN "refused" ELSE "accepted")
    ELSE IF o.threw THEN ""
    ELSE IF \E k \in 1 .. Len(o.ev) : Event(c, o.ev[k]) # "" THEN LET k == CHOOSE k \in 1 .. Len(o.ev) : Event(c, o.ev[k]) # "" IN Event(c, o.ev[k])
    ELSE FirstBad(<<
        <<"count", o.num = Cardinality(Kept(c))>>,
        <<"all-rows-reached", \A k \in Kept(c) : \E j \in 1 .. Len(o.ev) : o.ev[j].s = c.rows[k].s>>,
        <<"row-shares", \A j \in 1 .. Len(o.ev) : Compatible(o.ev[j].n, o.n, Mult(c, o.ev[j].s), Cardinality(Kept(c)))>>,
        <<"density", \A j \in 1 .. Len(o.dens) : o.dens[j].v = IF o.dens[j].E >= c.emin THEN 1000 ELSE 0>>,
        <<"copies", \A j \in 1 .. Len(o.copies) : o.copies[j]>> >>)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
