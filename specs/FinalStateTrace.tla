-------------------------- MODULE FinalStateTrace --------------------------
EXTENDS FinalState, TraceLib
VARIABLES i, s
K == 1000
VView(u, o) == FirstBad(<<
    <<"vertex-time", o.vt = VertexTime(u) * K>>,
    <<"secondary-times", o.st = [k \in 1 .. NSec |-> SecTime(u, k) * K]>>,
    <<"target-mass", o.tmass = u.tmass * K>>, <<"target-helicity", o.thel = u.thel * K>> >>)
VFinal(u, o) == FirstBad(<<
    <<"final-vertex-time", o.f.vt = VertexTime(u) * K>>,
    <<"final-secondary-times", o.f.st = [k \in 1 .. NSec |-> SecTime(u, k) * K]>>,
    <<"final-target-mass", o.f.tmass = u.tmass * K>>, <<"final-target-helicity", o.f.thel = u.thel * K>>,
    <<"final-param-a", o.f.pa = FinalParam(u.pa, o.givena) * K>>, <<"final-param-b", o.f.pb = FinalParam(u.pb, Unset) * K>>,
    <<"final-param-kept", o.f.pz = 4 * K>>,
    <<"final-sizes", o.f.sizes = [k \in 1 .. 5 |-> NSec]>>,
    <<"final-secondary-kinematics", o.f.kin>>,        \* as set, secondary by secondary
    <<"final-ids-unique", o.f.idsunique>>, <<"final-ids-kept", o.f.idskept>>,
    <<"final-primary-untouched", o.f.primary>>, <<"final-signature-untouched", o.f.sig>> >>)
\* hand-off: one line per secondary and length
VHand(o) == FirstBad(<<
    <<"handoff-threw", ~o.threw>>,
    <<"handoff-particle", o.same>>,                  \* type, mass, momentum, helicity
    <<"handoff-position", o.pos>>, <<"handoff-id", o.id>>, <<"handoff-index", o.index>>,
    <<"handoff-time", o.t0 = o.want * K>>,
    <<"handoff-direction", \A c \in 1 .. 3 : Near(o.dir[c], o.wantdir[c], 2)>>,
    <<"handoff-length", o.len = o.setlen * K>>,
    \* c (t - t0) = L E / p
    <<"handoff-flight", IF o.over # Unset THEN o.time = o.over * K
                        ELSE Near(o.flight, o.wantflight, 3)>>,
    <<"handoff-vertex", \A c \in 1 .. 3 : Near(o.vtx[c], o.wantvtx[c], 3)>>,
    <<"handoff-record", o.final>>,
    <<"handoff-length-required", o.nolen>> >>)
Verdict(u, o) == CASE o.op = "new" -> "" [] o.op = "final" -> VFinal(u, o) [] o.op = "hand" -> VHand(o)
                   [] OTHER -> VView(Apply(u, o), o)
Init == i = 1 /\ s = InitState(3, 11)
Next == /\ i <= Len(T) /\ Report(i, Verdict(s, T[i])) /\ Done(i) /\ i' = i + 1
        /\ s' = IF T[i].op = "new" THEN InitState(3, 11) ELSE Apply(s, T[i])
=============================================================================
