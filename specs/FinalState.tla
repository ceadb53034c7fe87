----------------------------- MODULE FinalState -----------------------------
(* The record of one interaction while its final state is being filled in, and *)
(* the hand-off of an outgoing particle to the next interaction.               *)
EXTENDS Integers, Sequences, FiniteSets
Unset == -999

NSec == 2
InitState(t, tm) == [vt |-> t, over |-> Unset, st |-> [k \in 1 .. NSec |-> Unset],
                     tmass |-> tm, thel |-> 0, pa |-> Unset, pb |-> Unset]

VertexTime(s) == IF s.over = Unset THEN s.vt ELSE s.over
SecTime(s, k) == IF s.st[k] = Unset THEN VertexTime(s) ELSE s.st[k]

Apply(s, o) == CASE o.op = "vtime" -> [s EXCEPT !.over = o.t]
                 [] o.op = "stime" -> [s EXCEPT !.st[o.k] = o.t]
                 [] o.op = "tmass" -> [s EXCEPT !.tmass = o.t]
                 [] o.op = "thel" -> [s EXCEPT !.thel = o.t]
                 [] o.op = "pa" -> [s EXCEPT !.pa = o.t]
                 [] o.op = "params" -> [s EXCEPT !.pa = Unset, !.pb = o.t]   \* replaces the set
                 [] OTHER -> s
\* the finished record: given parameters of the input record are kept unless overwritten
FinalParam(own, given) == IF own = Unset THEN given ELSE own
=============================================================================
