------------------------ MODULE InteractionTotalsTrace ------------------------
EXTENDS InteractionTotals, TraceLib
VARIABLES i
TSeq(xs) == SelectSeq(<<1, 2, 3>>, LAMBDA t : t \in AllTargets(xs))
LenOk(v, w) == IF w = Inf THEN v = Inf ELSE v # Inf /\ Abs(v - w) <= 3
V(o) == LET xs == o.xs dec == o.dec ts == TSeq(xs) n == Len(ts) IN FirstBad(<<
    <<"targets", o.targets = ts>>,
    <<"by-target-keys", o.keys = ts>>,
    <<"by-target", o.by = [k \in 1 .. 3 |-> ByTarget(xs, k, 1)]>>,
    <<"for-target", o.fort = [k \in 1 .. 3 |-> ByTarget(xs, k, 1)]>>,
    <<"foreign-target", o.none>>,
    <<"cross-sections", o.nx = Len(xs) /\ o.hasx = (xs # <<>>) /\ o.xorder>>,
    <<"decays", o.nd = Len(dec) /\ o.hasd = (dec # <<>>) /\ o.dorder>>,
    <<"total-keys", o.tkeys = ts /\ o.akeys = ts>>,
    <<"total", o.tot = [k \in 1 .. n |-> Total(xs, ts[k], o.f, o.e)]>>,
    <<"total-all-final-states", o.all = [k \in 1 .. n |-> TotalAll(xs, ts[k], o.e)]>>,
    <<"record-untouched", o.same>>,
    <<"decay-width", o.width = TotalWidth(dec)>>,
    <<"decay-length", LenOk(o.length, Len0(o.p, o.m, TotalWidth(dec)))>>,
    <<"single-decay-length", \A k \in 1 .. Len(dec) : LenOk(o.single[k], Len0(o.p, o.m, WidthAll(dec[k])))>>,
    <<"single-decay-length-of-final-state", \A k \in 1 .. Len(dec) : LenOk(o.singlef[k], Len0(o.p, o.m, Width(dec[k], o.f)))>>,
    <<"primary", o.primary>>, <<"matches", o.match>>, <<"default-time", o.dtime>> >>)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
