-------------------------- MODULE ParticleIDsTrace --------------------------
(* The identities handed out in one execution (any schedule, any processes):   *)
(* got[k] = <<process, thread, number>>, equal numbers mean equal identities.  *)
EXTENDS TraceLib, FiniteSets
VARIABLES i
VIds(o) == FirstBad(<<
    <<"generator-stuck", ~o.deadlock>>, <<"identity-not-set", o.set>>,
    <<"identity-missing", Len(o.got) = o.want>>,
    <<"identity-repeated", Cardinality({o.got[k][3] : k \in 1 .. Len(o.got)}) = Len(o.got)>> >>)
VReal(o) == FirstBad(<<
    <<"identity-not-set", o.set>>, <<"identity-missing", Len(o.ids) = o.want>>,
    <<"identity-repeated", Cardinality({o.ids[k] : k \in 1 .. Len(o.ids)}) = Len(o.ids)>> >>)
Verdict(o) == CASE o.op = "ids" -> VIds(o) [] o.op = "real" -> VReal(o) [] OTHER -> ""
Init == i = 1
Next == i <= Len(T) /\ Report(i, Verdict(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
