------------------------- MODULE ProcessIdentityDesign -------------------------
EXTENDS ProcessIdentity, TLC, Json
VARIABLE e
B(k) == [k |-> k, m |-> 50000, c |-> <<100, 40, 20>>, n |-> FALSE, ps |-> <<>>, f |-> <<TRUE, TRUE, TRUE>>, t |-> <<<<1000060120, 1>>>>, file |-> FALSE, suf |-> "_hf"]
Mixed(k) == {B(k)} \cup {[B(k) EXCEPT !.m = 50001], [B(k) EXCEPT !.m = 120000], [B(k) EXCEPT !.n = TRUE], [B(k) EXCEPT !.ps = <<5914>>], [B(k) EXCEPT !.ps = <<-5914>>],
              [B(k) EXCEPT !.ps = <<5914, -5914>>], [B(k) EXCEPT !.ps = <<5914>>, !.n = TRUE], [B(k) EXCEPT !.c = <<50>>], [B(k) EXCEPT !.c = <<50>>, !.ps = <<-5914, 5914>>]}
          \cup {[B(k) EXCEPT !.c = u] : u \in {<<0, 0, 50>>, <<0, 50, 0>>, <<50, 0, 0>>, <<100, 40, 0>>, <<40, 100, 20>>, <<100, 40, -20>>, <<0, 0, 0>>}}
TabB == [B("table") EXCEPT !.c = <<100>>]
Tables == {TabB} \cup {[TabB EXCEPT !.m = 50001], [TabB EXCEPT !.n = TRUE], [TabB EXCEPT !.c = <<30>>], [TabB EXCEPT !.c = <<-100>>], [TabB EXCEPT !.c = <<0>>],
              [TabB EXCEPT !.ps = <<12>>], [TabB EXCEPT !.ps = <<-12>>], [TabB EXCEPT !.ps = <<12, 14, 16, -12, -14, -16>>], [TabB EXCEPT !.c = <<30>>, !.n = TRUE]}
          \cup {[TabB EXCEPT !.f = g] : g \in {<<a, b, d>> : a \in BOOLEAN, b \in BOOLEAN, d \in BOOLEAN}}
          \cup {[TabB EXCEPT !.t = g] : g \in {<<>>, <<<<1000060120, 2>>>>, <<<<1000180400, 1>>>>, <<<<1000010010, 1>>, <<1000060120, 1>>>>, <<<<1000060120, 1>>, <<1000010010, 1>>>>,
                                               <<<<1000010010, 1>>, <<1000060120, 2>>>>, <<<<1000060120, 3>>>>, <<<<1000060120, 4>>>>}}
Files == UNION {{[TabB EXCEPT !.file = TRUE, !.suf = s], [TabB EXCEPT !.file = TRUE, !.suf = s, !.t = <<<<1000010010, 1>>, <<1000060120, 2>>>>], [TabB EXCEPT !.file = TRUE, !.suf = s, !.t = <<<<1000180400, 1>>>>],
                 [TabB EXCEPT !.file = TRUE, !.suf = s, !.t = <<<<1000060120, 4>>>>]} : s \in {"", "_hf"}}
\* files: named after nucleus and mass, given for a target and a mass, there or not
Refusals == {[g |-> "refuse", Z |-> z[1], A |-> z[2], m |-> m, tm |-> tm, t |-> t, there |-> th, total |-> tot, suf |-> s] :
    z \in {<<6, 12>>, <<18, 40>>, <<1, 1>>}, m \in {50000, 5000, 120000}, tm \in {50000, 120000}, t \in {1000060120, 1000180400, 1000010010}, th \in BOOLEAN, tot \in BOOLEAN, s \in {"", "_hf", "_hc"}}
Pool == {B("dummy"), B("charm"), B("charm3")}
     \cup {[B("elastic") EXCEPT !.ps = p] : p \in {<<>>, <<12>>, <<14>>, <<14, 12>>, <<16>>, <<12, 14, 16>>}}
     \cup {[B("ew") EXCEPT !.ps = p] : p \in {<<>>, <<24>>, <<-24>>, <<23>>, <<24, -24>>, <<-24, 24>>, <<23, 24, -24>>}}
     \cup Mixed("hnl") \cup Mixed("dipole") \cup Tables \cup Files
Init == e \in Pool \/ e \in Refusals
Next == PrintT(<<"EMIT", ToJson(e)>>) /\ FALSE /\ UNCHANGED e
\* being the same is an equivalence, and kinds never mix
Inv == "g" \in DOMAIN e \/ (/\ Same(e, e) /\ \A b \in Pool : Same(e, b) = Same(b, e) /\ (Same(e, b) => e.k = b.k)
       /\ \A b \in Pool, d \in {x \in Pool : x.k = e.k} : (Same(e, b) /\ Same(b, d)) => Same(e, d))
================================================================================
