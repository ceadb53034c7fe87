---------------------------- MODULE MaterialsDesign ----------------------------
EXTENDS Materials, TLC, Json
CONSTANTS MaxOps, EmitAt
VARIABLES m, hist
H == 1000010010
C12 == 1000060120
O16 == 1000080160
N14 == 1000070140
Ar == 1000180400
Fe == 1000260560
Pb == 1000822080
\* compositions as sequences of <<nucleus, 1/1000 of the mass>> (the order in which they are written)
Comps == {<<<<H, 112>>, <<O16, 888>>>>, <<<<Ar, 1000>>>>, <<<<O16, 250>>, <<C12, 750>>>>, <<<<H, 1000>>>>, <<<<Pb, 400>>, <<Fe, 500>>, <<H, 50>>, <<N14, 50>>>>,
          <<<<1000010020, 200>>, <<1000130270, 300>>, <<1000140280, 500>>>>, <<<<O16, 888>>, <<H, 60>>>>, <<<<C12, 750>>, <<H, 0>>, <<O16, 250>>>>}
Fn(q) == [c \in {q[i][1] : i \in 1 .. Len(q)} |-> q[CHOOSE i \in 1 .. Len(q) : q[i][1] = c][2]]
Names == {"A", "B", "ROCK"}
O(op, l) == [op |-> op, l |-> l]
Defs == {[n |-> n, q |-> q] : n \in Names, q \in Comps}
Ops == {O("add", <<d>>) : d \in Defs} \cup {O("file", <<d>>) : d \in Defs} \cup {O(x, <<>>) : x \in {"binary", "json", "copy"}}
       \cup {O("file", <<[n |-> "A", q |-> q], [n |-> n, q |-> r]>>) : q \in Comps, n \in Names, r \in Comps}
RECURSIVE Apply(_, _)
Apply(x, l) == IF l = <<>> THEN x ELSE Apply(Define(x, Head(l).n, Fn(Head(l).q)), Tail(l))
Init == m = <<>> /\ hist = <<>>
Next == \E o \in Ops : /\ Len(hist) < MaxOps
                       /\ m' = Apply(m, o.l) /\ hist' = Append(hist, o)
                       /\ (IF Len(hist') = EmitAt THEN PrintT(<<"EMIT", ToJson(hist')>>) ELSE TRUE)
\* charge neutral, made of nucleons, nothing twice, names and ids one to one
Near1(a, b, e) == a - b <= e /\ b - a <= e
Inv == /\ \A i, j \in 1 .. Len(m) : m[i].n = m[j].n => i = j
       /\ \A i \in 1 .. Len(m) : LET c == m[i].comp IN /\ Protons(c) + Neutrons(c) = Nucleons(c)
                                                      /\ Particles(Electron, c) = Particles(Proton, c)
                                                      /\ Radiation(c) > 0
Stable == [][\A i \in 1 .. Len(m) : m'[i].n = m[i].n]_m
=============================================================================
