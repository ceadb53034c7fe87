------------------------ MODULE PrimaryRecordDesign ------------------------
(* Every history of setting quantities of a primary record (order does not     *)
(* matter to the result, so the state is the set of set quantities), checking  *)
(* the derivation rules: sound on exact lattices, monotone, and complete       *)
(* enough that the full set makes everything available.  Emits every subset.   *)
EXTENDS ParticleKinematics, TLC, Json
CONSTANTS EmitCases
VARIABLES S
Order == <<"mass", "energy", "ke", "dir", "mom", "len", "x0", "vtx", "poca", "vdist", "idist">>
ToSeq(X) == SelectSeq(Order, LAMBDA q : q \in X)
Emit(X) == IF EmitCases THEN PrintT(<<"EMIT", ToJson([sets |-> ToSeq(X)])>>) ELSE TRUE
Init == S = {} /\ Emit({})
Next == \E q \in Quantities \ S : S' = S \cup {q} /\ Emit(S')
All == Quantities \cup {"time", "four"}
Monotone == [][\A q \in All : Derivable(S, q) => Derivable(S', q)]_S
SetIsDerivable == \A q \in S : Derivable(S, q)
Lattices == \A k \in 1 .. Len(Scenarios) : Exact(Scenarios[k])
\* each derivation rule reproduces the true value on every scenario
Sound == \A k \in 1 .. Len(Scenarios) : LET s == Scenarios[k] IN
    /\ s.E * s.E - Dot(Mom(s), Mom(s)) = s.m * s.m
    /\ s.E - KE(s) = s.m /\ s.m + KE(s) = s.E
    /\ (KE(s) + s.m) * (KE(s) + s.m) - s.m * s.m = s.p * s.p
    /\ VAdd(Vtx(s), Along(s, -s.L)) = s.x0
    /\ VDist(s) - IDist(s) = s.L
    /\ VAdd(Poca(s), Along(s, IDist(s))) = s.x0
    /\ VAdd(Vtx(s), Along(s, -VDist(s))) = Poca(s)
    /\ Dot(Vtx(s), s.D) = s.DN * VDist(s)
Scn == IF EmitCases /\ S = {} THEN \A k \in 1 .. Len(Scenarios) : PrintT(<<"EMIT", ToJson([scn |-> k, vals |-> Values(Scenarios[k])])>>) ELSE TRUE
Inv == SetIsDerivable /\ Lattices /\ Sound
=============================================================================
