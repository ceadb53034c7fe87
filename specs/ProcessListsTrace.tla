-------------------------- MODULE ProcessListsTrace --------------------------
EXTENDS ProcessLists, TraceLib
VARIABLES i, st, kind
VSlot(k, u, o) == FirstBad(<<
    <<"injection-list", o.p[k].inj = u.p[k].inj>>,
    <<"physical-list", o.p[k].phys = u.p[k].phys>>,
    <<"mirrored-objects", o.p[k].mirror>>,
    <<"primary-type", o.p[k].type = u.p[k].type>>,
    <<"interactions", (o.p[k].coll = 0) = (u.p[k].coll = 0)>>,
    <<"interactions-type", o.p[k].colltype = CollType(u, k)>> >>)
V(u, o) == LET a == VSlot(1, u, o) b == VSlot(2, u, o) IN
    IF a # "" THEN a ELSE IF b # "" THEN b
    ELSE FirstBad(<< <<"shared-interactions", (o.p[1].coll = o.p[2].coll) = (u.p[1].coll = u.p[2].coll)>>,
                     <<"equality", o.eq = Equal(u)>>, <<"matches-head", o.head = (u.p[1].type = u.p[2].type)>> >>)
Verdict(u, o) == IF o.op = "new" THEN V(InitState, o)
                 ELSE IF o.threw # Refused(kind, u, o) THEN (IF o.threw THEN "refused-" ELSE "accepted-") \o o.op
                 ELSE V(Step(kind, u, o), o)
Init == i = 1 /\ st = InitState /\ kind = "phys"
Next == /\ i <= Len(T) /\ Report(i, Verdict(st, T[i])) /\ Done(i) /\ i' = i + 1
        /\ IF T[i].op = "new" THEN st' = InitState /\ kind' = T[i].kind
           ELSE st' = Step(kind, st, T[i]) /\ UNCHANGED kind
=============================================================================
