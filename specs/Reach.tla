--------------------------------- MODULE Reach ---------------------------------
(* How far a decaying particle or the lepton of a neutrino reaches: range and  *)
(* depth functions as configured objects.                                      *)
EXTENDS Integers, Sequences, FiniteSets
(* --- decays: mass a, momentum b, energy c are Pythagorean in units; lengths  *)
(* in units of hbar c over the width.                                          *)
Triples == {<<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<15, 8, 17>>, <<7, 24, 25>>, <<3, 0, 3>>, <<20, 21, 29>>}
Unlimited == -1
\* scaled by s, of a function with multiplier mu and limit mx (Unlimited: none)
Length(t, s) == (t[2] * s) \div t[1]
Reached(t, mu, mx, s) == LET l == (t[2] * mu * s) \div t[1] IN IF mx # Unlimited /\ l > mx * s THEN mx * s ELSE l
(* --- leptons: a continuous loss alpha + beta E. A charge of parameters is    *)
(* <<b, r>>: beta = b units, beta/alpha = r per unit energy; <<0, 0>> are the  *)
(* parameters of a fresh object. Depths are exponents: D(x) = exp(2 depth)     *)
(* multiplies, so the depth of muon and tau one after the other is a product.  *)
Pow(x, n) == IF n = 1 THEN x ELSE IF n = 2 THEN x * x ELSE x * x
Fresh == [mu |-> <<0, 0>>, tau |-> <<0, 0>>, scale |-> 1, max |-> 0]
TauKinds == {16, -16}
Factor(p, e) == Pow(1 + (e * p[2]), IF p[1] = 1 THEN 2 ELSE 1)
Uncapped(f, k, e) == Factor(f.mu, e) * (IF k \in TauKinds THEN Factor(f.tau, e) ELSE 1)
\* max 0: the limit of a fresh object, out of reach here
Depth(f, k, e) == LET d == Uncapped(f, k, e) IN IF f.max # 0 /\ d > f.max THEN f.max ELSE d
\* one call of the object's interface
After(f, o) == CASE o.o = "mu" -> [f EXCEPT !.mu = <<o.a, o.b>>]
    [] o.o = "tau" -> [f EXCEPT !.tau = <<o.a, o.b>>]
    [] o.o = "scale" -> [f EXCEPT !.scale = o.a]
    [] o.o = "max" -> [f EXCEPT !.max = o.a]
    [] OTHER -> f
RECURSIVE AfterAll(_, _)
AfterAll(f, os) == IF os = <<>> THEN f ELSE AfterAll(After(f, Head(os)), Tail(os))
================================================================================
