------------------------------- MODULE Materials -------------------------------
(* Materials: a material is a set of nuclei with mass fractions (in 1/1000 of the *)
(* material's mass). It contains, besides the nuclei, the neutrons, nucleons,      *)
(* protons and electrons that make them up. A model maps names to materials; ids   *)
(* number the names in the order of their first definition; a later definition of  *)
(* the same name replaces the material and keeps its id.                           *)
EXTENDS Integers, Sequences, FiniteSets
\* nuclei: PDG code |-> protons, nucleons, molar mass (1e-5 g/mol), 1e5 ln(287 / sqrt Z)
Nuclei == {[c |-> 1000010010, z |-> 1, a |-> 1, m |-> 100783, l |-> 565948], [c |-> 1000010020, z |-> 1, a |-> 2, m |-> 201410, l |-> 565948], [c |-> 1000060120, z |-> 6, a |-> 12, m |-> 1200000, l |-> 476360], [c |-> 1000080160, z |-> 8, a |-> 16, m |-> 1599491, l |-> 461976], [c |-> 1000070140, z |-> 7, a |-> 14, m |-> 1400307, l |-> 468653], [c |-> 1000130270, z |-> 13, a |-> 27, m |-> 2698154, l |-> 437701], [c |-> 1000140280, z |-> 14, a |-> 28, m |-> 2797693, l |-> 433995], [c |-> 1000180400, z |-> 18, a |-> 40, m |-> 3996238, l |-> 421430], [c |-> 1000260560, z |-> 26, a |-> 56, m |-> 5593494, l |-> 403043], [c |-> 1000822080, z |-> 82, a |-> 208, m |-> 20797665, l |-> 345612]}
Nuc(c) == CHOOSE n \in Nuclei : n.c = c
Neutron == 2112
Nucleon == 2000002112
Proton == 2212
Electron == 11
Mn == 100866
Mp == 100783
Mnuc == 100825        \* molar masses, 1e-5 g/mol
\* masses of nuclei in 1e-6 g/mol: measured ones and ones from the mass formula (strangeness, protons, nucleons)
Measured == {<<1, 1, 1007825>>, <<1, 2, 2014102>>, <<2, 4, 4002603>>, <<6, 12, 12000000>>, <<7, 14, 14003074>>, <<8, 16, 15994915>>, <<9, 19, 18998403>>, <<11, 23, 22989769>>, <<12, 24, 23985042>>, <<13, 27, 26981538>>, <<14, 28, 27976927>>, <<15, 31, 30973762>>, <<16, 32, 31972071>>, <<17, 35, 34968853>>, <<18, 40, 39962383>>, <<19, 39, 38963706>>, <<20, 40, 39962591>>, <<22, 48, 47947941>>, <<24, 52, 51940505>>, <<25, 55, 54938043>>, <<26, 54, 53939608>>, <<26, 56, 55934936>>, <<28, 58, 57935342>>, <<29, 63, 62929597>>, <<29, 65, 64927790>>, <<30, 64, 63929142>>, <<32, 74, 73921178>>, <<47, 107, 106905092>>, <<53, 127, 126904473>>, <<54, 132, 131904155>>, <<74, 183, 182950224>>, <<79, 197, 196966570>>, <<82, 208, 207976652>>, <<92, 238, 238050788>>, <<4, 9, 9012183>>}
Formula == {<<0, 50, 200, 200541130>>, <<1, 3, 9, 9208192>>, <<1, 1, 4, 4217521>>, <<1, 8, 17, 17183589>>, <<2, 4, 10, 10386142>>, <<0, 20, 90, 90386119>>, <<1, 82, 209, 209157703>>, <<0, 1, 12, 12143330>>}
\* ---- exact quotients -----------------------------------------------------------
\* a * 10^k / b by long division
RECURSIVE Quot(_, _, _, _)
Quot(q, r, b, k) == IF k = 0 THEN q ELSE Quot(10 * q + ((10 * r) \div b), (10 * r) % b, b, k - 1)
Div(a, b, k) == Quot(a \div b, a % b, b, k)
\* x * m / 10^5 for x up to 10^9, m up to 1.1 * 10^5
Times(x, m) == ((x \div 100000) * m) + ((((x % 100000) \div 10) * (m \div 10)) \div 1000)
\* a composition: function from nuclei to 1/1000 of the mass
Moles(c, comp) == Div(comp[c] * 100000, Nuc(c).m, 6)           \* of the nucleus per gram of material, in 1e-9
Part(c, comp, what) == LET n == Nuc(c) w == Moles(c, comp) IN
     CASE what = "n" -> w * (n.a - n.z) [] what = "p" -> w * n.z [] what = "N" -> w * n.a
       [] what = "x" -> Div(Div(comp[c] * n.z * (n.z + 1), n.a, 1) * (n.l \div 100), 7164, 1)
RECURSIVE SumOver(_, _, _)
SumOver(S, comp, what) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Part(c, comp, what) + SumOver(S \ {c}, comp, what)
Ns(comp) == DOMAIN comp
Neutrons(comp) == SumOver(Ns(comp), comp, "n")
Protons(comp) == SumOver(Ns(comp), comp, "p")
Nucleons(comp) == SumOver(Ns(comp), comp, "N")
Radiation(comp) == SumOver(Ns(comp), comp, "x")                \* inverse radiation length, 1e-7 / (g/cm^2)
\* particles of a kind per gram, in 1e-9 mol
Particles(t, comp) == IF t \in Ns(comp) THEN Moles(t, comp)
    ELSE CASE t = Neutron -> Neutrons(comp) [] t = Proton -> Protons(comp) [] t = Nucleon -> Nucleons(comp) [] t = Electron -> Protons(comp) [] OTHER -> 0
\* share of the mass, in 1e-9
Share(t, comp) == IF t \in Ns(comp) THEN comp[t] * 1000000
    ELSE CASE t = Neutron -> Times(Neutrons(comp), Mn) [] t = Proton -> Times(Protons(comp), Mp) [] t = Nucleon -> Times(Nucleons(comp), Mnuc)
           [] t = Electron -> ((Protons(comp) \div 10000) * 5486) \div 1000 [] OTHER -> 0
Targets(comp) == Ns(comp) \cup {t \in {Neutron, Nucleon, Proton, Electron} : Particles(t, comp) > 0}
\* the part of a set of targets in stopping radiation, in 1e-4 of the set's total (nuclei only)
RadShare(t, S, comp) == IF t \notin Ns(comp) THEN 0 ELSE Div(Part(t, comp, "x"), SumOver(S \cap Ns(comp), comp, "x"), 4)
\* ---- models ---------------------------------------------------------------------
\* a model: sequence of [n |-> name, comp |-> composition]
IdOf(m, n) == IF \E i \in 1 .. Len(m) : m[i].n = n THEN (CHOOSE i \in 1 .. Len(m) : m[i].n = n) - 1 ELSE -1
Define(m, n, comp) == IF IdOf(m, n) >= 0 THEN [m EXCEPT ![IdOf(m, n) + 1].comp = comp] ELSE Append(m, [n |-> n, comp |-> comp])
=============================================================================
