------------------------------ MODULE KinDesign ------------------------------
(* The cases that are replayed into the decays and cross sections: every final *)
(* state of every process that is open at a choice of masses (some just above  *)
(* the threshold), for slow and fast parents in several directions, both       *)
(* helicities and both natures; and the properties of the design itself:       *)
(* every final state conserves charge and lepton number, and the final states  *)
(* of an antiparticle are those of the particle with every body conjugated.    *)
EXTENDS Channels, TLC, Json
CONSTANTS What, Events
VARIABLE c
Nice == <<100, 100, 100>>
\* one case; the last argument overrides fields
Base(k) == [op |-> "sample", k |-> k, M |-> 0, c |-> Nice, maj |-> FALSE, ps |-> <<>>, p |-> 12, t |-> DEC, s |-> <<>>, pm |-> 0,
            mom |-> 100000, x |-> 1, dir |-> 0, h |-> -1, tm |-> 0, n |-> Events, seed |-> 1, xi |-> 0, nu |-> 0,
            z |-> TRUE, inv |-> FALSE, inel |-> FALSE, slope |-> 1, parents |-> <<>>]
Dirs == 0 .. 7
Moving(b, m) == \E mo \in {m \div 5, 4 * m}, xx \in {1, 20}, d \in Dirs, h \in {-1, 1} :
                    c = [b EXCEPT !.mom = mo, !.x = xx, !.dir = d, !.h = h, !.seed = 1 + d]
HnlMasses(s) == {m \in {50000, 120000, 300000, 10000000} : Open(m, s)} \cup (IF Len(s) = 2 /\ SumMass(s) > 0 THEN {SumMass(s) + 300} ELSE {})
HadOk(m, s) == (\E i \in 1 .. Len(s) : s[i] = HAD) => m > 100000
Dipole == \E m \in {1000, 40000}, mj \in BOOLEAN, p \in {N4, -N4} : \E t \in States("dipole", p) : \E s \in {t, <<t[2], t[1]>>} :
            Moving([Base("dipole") EXCEPT !.M = m, !.pm = m, !.maj = mj, !.p = p, !.s = s, !.xi = IF s[1] = 22 THEN 0 ELSE 1], m)
Hnl2 == \E p \in {N4, -N4} : \E s \in HnlTwo(p), mj \in BOOLEAN : \E m \in {mm \in HnlMasses(s) : HadOk(mm, s)} :
            Moving([Base("hnl") EXCEPT !.M = m, !.pm = m, !.maj = mj, !.p = p, !.s = s, !.xi = 1], m)
Hnl3 == \E p \in {N4, -N4} : \E s \in HnlThree(p) \ {<<5910, -5910, 5910>>}, mj \in BOOLEAN : \E m \in HnlMasses(s) :
            Moving([Base("hnl") EXCEPT !.M = m, !.pm = m, !.maj = mj, !.p = p, !.s = s, !.xi = 1], m)
Ew == \E p \in {24, -24, 23} : \E s \in {t \in States("ew", p) : Open(Mass(p), t)} :
            Moving([Base("ew") EXCEPT !.p = p, !.pm = Mass(p), !.M = Mass(p), !.s = s], Mass(p) \div 4)
Charm == \E k \in {"charm", "charm3"} : \E p \in Parents(k) : \E s \in States(k, p) :
            Moving([Base(k) EXCEPT !.p = p, !.pm = Mass(p), !.M = Mass(p), !.s = s], Mass(p))
ElasticCase(p, nu, e, xx, d, h) == [Base("elastic") EXCEPT !.p = p, !.t = 11, !.s = IF nu = 0 THEN <<p, 11>> ELSE <<11, p>>, !.nu = nu, !.xi = nu, !.mom = e, !.x = xx, !.dir = d, !.h = h, !.tm = 51, !.seed = d + 1]
Elastic == \E p \in {12, 14}, nu \in {0, 1}, e \in {100, 100000}, xx \in {1, 30}, d \in Dirs, h \in {-1, 1} : c = ElasticCase(p, nu, e, xx, d, h)
DummyCase(p, e, xx, d, h) == [Base("dummy") EXCEPT !.p = p, !.t = NUC, !.s = <<p, NUC>>, !.mom = e, !.x = xx, !.dir = d, !.h = h, !.tm = 93957, !.seed = d + 1]
Dummy == \E p \in {12, -12, 14, -14, 16, -16}, e \in {1000000, 100000000}, xx \in {1, 10}, d \in Dirs, h \in {-1, 1} : c = DummyCase(p, e, xx, d, h)
Target(t) == CASE t = C12 -> 1117486 [] t = AR40 -> 3721435 [] OTHER -> 93827
TableCase(p, t, nu, b) == [b EXCEPT !.p = p, !.t = t, !.s = IF nu = 0 THEN <<SgnC(p) * N4, t>> ELSE <<t, SgnC(p) * N4>>, !.nu = nu, !.xi = nu, !.tm = Target(t)]
TB(m, z, i, sl, e, d) == [Base("table") EXCEPT !.M = m, !.z = z, !.inel = i, !.slope = sl, !.mom = e, !.dir = d, !.seed = d + 1]
Table == \E p \in {12, -14, 16}, t \in {C12, AR40, H1}, nu \in {0, 1}, f \in BOOLEAN, z \in BOOLEAN, i \in BOOLEAN, sl \in {0, 4}, d \in Dirs, h \in {-1, 1}, e \in {80000, 200000} :
            c = [TableCase(p, t, nu, TB(30000, z, i, sl, e, d)) EXCEPT !.maj = f, !.h = h]
DarkCase(p, t, m, z, il, sl, e, d) == [Base("dark") EXCEPT !.p = p, !.t = t, !.s = <<SgnC(p) * N4, t>>, !.tm = Target(t), !.M = m, !.z = z, !.inel = il, !.slope = sl, !.mom = e, !.dir = d, !.seed = d + 1]
Dark == \E p \in {12, -14}, t \in {C12, H1}, m \in {5000, 30000}, z \in BOOLEAN, il \in BOOLEAN, sl \in {0, 4}, e \in {80000, 200000}, d \in Dirs, h \in {-1, 1}, pm \in {0, 2000} :
            c = [DarkCase(p, t, m, z, il, sl, e, d) EXCEPT !.h = h, !.pm = pm]
\* ---- widths and cross sections -----------------------------------------------------------
Coups == {<<100, 100, 100>>, <<30, 0, 0>>, <<0, 50, 0>>, <<0, 0, 20>>, <<60, 30, 10>>, <<-40, 20, 0>>, <<0, 0, 0>>}
WidthCase(k, m) == [Base(k) EXCEPT !.op = "width", !.M = m, !.pm = m, !.mom = m]
Widths ==
    \/ \E m \in {13600, 14100, 40000, 63000, 98000, 100000, 150000, 250000, 450000, 1000000, 9200000, 12000000}, u \in Coups, mj \in BOOLEAN :
           c = [WidthCase("hnl", m) EXCEPT !.c = u, !.maj = mj, !.parents = <<N4, -N4>>]
    \/ \E m \in {1000, 40000, 300000}, u \in Coups, mj \in BOOLEAN : c = [WidthCase("dipole", m) EXCEPT !.c = u, !.maj = mj, !.parents = <<N4, -N4, 12>>]
    \/ \E k \in {"hnl", "dipole"}, q \in {<<N4>>, <<-N4>>} : c = [WidthCase(k, 100000) EXCEPT !.parents = q, !.ps = q]
    \/ \E q \in {<<24>>, <<-24, 24>>} : c = [WidthCase("ew", Mass(24)) EXCEPT !.parents = <<24>>, !.ps = q]
    \/ \E k \in {"ew", "charm", "charm3"} : \E p \in Parents(k) : c = [WidthCase(k, Mass(p)) EXCEPT !.parents = <<p>>]
Queries == \E p \in {24, -24, 23}, a \in Nus \cup Leps \cup Ups \cup Downs \cup {-q : q \in Leps \cup Ups \cup Downs}, b \in Nus \cup {-q : q \in Nus \cup Leps \cup Ups \cup Downs} :
      c = [Base("ew") EXCEPT !.op = "query", !.p = p, !.pm = Mass(p), !.M = Mass(p), !.mom = Mass(p), !.s = <<a, b>>]
X(b) == [b EXCEPT !.op = "xsec", !.h = 1]
XSecs ==
    \/ \E p \in {12, 14}, nu \in {0, 1}, e \in {100, 100000}, xx \in {1, 30}, d \in Dirs : c = X(ElasticCase(p, nu, e, xx, d, 1))
    \/ \E p \in {12, 14}, e \in {100, 100000} : c = [X(ElasticCase(p, 0, e, 1, 0, 1)) EXCEPT !.ps = <<12>>]
    \/ \E p \in {12, -12, 14, -14, 16, -16}, e \in {1000000, 100000000}, xx \in {1, 10}, d \in {0, 6} : c = X(DummyCase(p, e, xx, d, 1))
    \/ \E p \in {12, -12, 14, -14, 16, -16, 11, N4} : c = [X(DummyCase(p, 1000000, 1, 0, 1)) EXCEPT !.t = C12]
    \/ \E p \in {12, -14, 14}, t \in {C12, H1, AR40}, m \in {5000, 30000}, z \in BOOLEAN, il \in BOOLEAN, sl \in {0, 4}, e \in {80000, 200000}, d \in {0, 7} : c = X(DarkCase(p, t, m, z, il, sl, e, d))
    \/ \E p \in {11, N4} : c = X(DummyCase(p, 1000000, 1, 0, 1))
    \/ \E p \in {12, -14, 16}, t \in {C12, AR40, H1}, nu \in {0, 1}, z \in BOOLEAN, i \in BOOLEAN, sl \in {0, 4}, d \in {0, 7}, e \in {80000, 200000}, inv \in BOOLEAN, u \in {100, 30, 0} :
           c = [X(TableCase(p, t, nu, TB(30000, z, i, sl, e, d))) EXCEPT !.inv = inv, !.c = <<u, 0, 0>>]
    \/ \E p \in {12, -12}, t \in {C12, AR40, H1}, i \in BOOLEAN, e \in {29000, 49000, 50000, 100000, 5000000, 5100000} : c = X(TableCase(p, t, 0, TB(30000, TRUE, i, 4, e, 0)))
    \/ \E p \in {14, -16}, t \in {C12, AR40, H1}, i \in BOOLEAN, e \in {145000, 155000, 170000, 300000} : c = X(TableCase(p, t, 0, TB(150000, TRUE, i, 4, e, 0)))
    \/ \E p \in {12, -12, 14}, t \in {C12, H1, NUC} : c = [X(TableCase(p, t, 0, TB(30000, TRUE, TRUE, 4, 80000, 0))) EXCEPT !.ps = <<12, -14>>]
Init == CASE What = "dipole" -> Dipole [] What = "hnl2" -> Hnl2 [] What = "hnl3" -> Hnl3 [] What = "ew" -> Ew [] What = "charm" -> Charm
          [] What = "elastic" -> Elastic [] What = "dummy" -> Dummy [] What = "table" -> Table [] What = "dark" -> Dark
          [] What = "width" -> Widths [] What = "query" -> Queries [] What = "xsec" -> XSecs [] What = "rules" -> c = Base("ew")
Next == PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
\* ---- the design ---------------------------------------------------------------------------
AllStates == UNION {{<<k, p, s>> : s \in States(k, p)} : k \in {"dipole", "hnl", "ew", "charm", "charm3"}, p \in {N4, -N4, 24, -24, 23, 411, -411, 421, -421, 431, -431}}
HasHad(s) == \E i \in 1 .. Len(s) : s[i] = HAD
LepOf(p) == IF AbsC(p) = N4 THEN SgnC(p) ELSE 0
Light(s) == Len(s) = 3 /\ AbsC(s[1]) = 5910
LepTotal(s) == SumLep(s) + (IF Light(s) THEN SgnC(s[1]) ELSE 0)
Rules == /\ \A q \in AllStates : HasHad(q[3]) \/ SumCharge(q[3]) = Charge(q[2])
         /\ \A q \in AllStates : q[3] = <<5910, -5910, 5910>> \/ LepTotal(q[3]) = LepOf(q[2])
         /\ \A q \in AllStates : (q[1] = "ew") => \A f \in Nus : SumFam(f, q[3]) = 0
         /\ \A q \in AllStates : (q[1] \in {"dipole", "charm"} \/ (q[1] = "hnl" /\ Len(q[3]) = 2)) =>
                [i \in 1 .. Len(q[3]) |-> Anti(q[3][i])] \in States(q[1], -q[2])
=============================================================================
