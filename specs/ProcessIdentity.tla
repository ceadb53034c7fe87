---------------------------- MODULE ProcessIdentity ----------------------------
(* What makes two decays or cross sections the same: kind and configuration.    *)
(* A configuration is [k, m, c, n, ps, f, t]: mass (1e-5 GeV), couplings        *)
(* (1/100), nature or helicity channel, configured primaries (none: default),   *)
(* flags <<z, inverse GeV, inelastic>>, tables (pairs of target and number).    *)
EXTENDS Integers, Sequences, FiniteSets
Default(k) == CASE k = "elastic" -> {12, 14} [] k = "ew" -> {24, -24, 23} [] k \in {"hnl", "dipole"} -> {5914, -5914}
                [] k = "table" -> {12, 14, 16, -12, -14, -16} [] OTHER -> {}
Range(s) == {s[i] : i \in 1 .. Len(s)}
Prims(e) == IF Len(e.ps) = 0 THEN Default(e.k) ELSE Range(e.ps)
\* one coupling only: the tau one of mixings, the muon one of dipoles
Coup(e) == IF e.k \in {"hnl", "dipole"} /\ Len(e.c) = 1 THEN (IF e.k = "hnl" THEN <<0, 0, e.c[1]>> ELSE <<0, e.c[1], 0>>) ELSE e.c
Meaning(e) == CASE e.k \in {"dummy", "charm", "charm3"} -> <<e.k>>
                [] e.k \in {"elastic", "ew"} -> <<e.k, Prims(e)>>
                [] e.k \in {"hnl", "dipole"} -> <<e.k, Prims(e), e.m, Coup(e), e.n>>
                [] e.k = "table" -> <<e.k, Prims(e), e.m, Coup(e), e.n, e.f, Range(e.t)>>
Same(a, b) == a.k = b.k /\ Meaning(a) = Meaning(b)
IsDecay(e) == e.k \in {"ew", "hnl", "dipole", "charm", "charm3"}
================================================================================
