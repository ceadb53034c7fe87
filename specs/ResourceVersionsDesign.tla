------------------------ MODULE ResourceVersionsDesign -------------------------
EXTENDS ResourceVersions, Json
CONSTANT What
VARIABLE c
V0 == [e |-> 0, rel |-> <<1>>, pre |-> 0, pn |-> 0, post |-> 0, on |-> 0, dev |-> 0, dn |-> 0, loc |-> <<>>]
Ver == {v \in [e : {0, 1}, rel : {<<1>>, <<1, 2>>, <<1, 10>>, <<2>>, <<1, 2, 3>>, <<0, 9>>}, pre : 0 .. 3, pn : {0, 2, 10}, post : {0, 1}, on : {0, 3}, dev : {0, 1}, dn : {0, 4}, loc : {<<>>, <<[w |-> 1, n |-> 0]>>, <<[w |-> 0, n |-> 7]>>, <<[w |-> 2, n |-> 0], [w |-> 0, n |-> 12]>>}] :
    (v.pre = 0 => v.pn = 0) /\ (v.post = 0 => v.on = 0) /\ (v.dev = 0 => v.dn = 0)}
Small == {v \in Ver : v.loc = <<>> /\ v.e = 0 /\ v.rel \in {<<1>>, <<1, 2>>, <<2>>} /\ v.pre # 2 /\ v.pn \in {0, 2} /\ v.on = 0 /\ v.dn = 0}
Chars(s) == [i \in 1 .. Len(s) |-> SubSeq(s, i, i)]
F(n, low) == [n |-> n, low |-> low]
Names == <<F("Ice", <<"i", "c", "e">>), F("ICE", <<"i", "c", "e">>), F("IceCube", <<"i", "c", "e", "c", "u", "b", "e">>), F("Nd_x.2", <<"n", "d", "_", "x", ".", "2">>), F("DUNE-FD", <<"d", "u", "n", "e", "-", "f", "d">>)>>
Asks == {F("Ice", <<"i", "c", "e">>), F("iCE", <<"i", "c", "e">>), F("ic", <<"i", "c">>), F("IceCube", <<"i", "c", "e", "c", "u", "b", "e">>), F("nD_X.2", <<"n", "d", "_", "x", ".", "2">>), F("Nova", <<"n", "o", "v", "a">>), F("dune", <<"d", "u", "n", "e">>), F("Dune-fd", <<"d", "u", "n", "e", "-", "f", "d">>)}
R(r) == [V0 EXCEPT !.rel = r]
Vs == <<R(<<1>>), R(<<1, 2>>), R(<<10>>), [R(<<2>>) EXCEPT !.pre = 3, !.pn = 1], [R(<<2>>) EXCEPT !.dev = 1, !.dn = 1], [R(<<2>>) EXCEPT !.post = 1, !.on = 4], [R(<<0, 9>>) EXCEPT !.e = 1]>>
\* contents of a folder: which of Vs it has (0: a folder without version, 8: the first one again, spelled differently)
Contents == {S \in SUBSET (0 .. 8) : Cardinality(S) <= 3}
Few == {{}, {0}, {1, 3}, {1, 8}}
Case(names, top, subs, a, v, must, file) == [g |-> "find", names |-> names, top |-> top, subs |-> subs, ask |-> a, v |-> v, must |-> must, file |-> file]
NameCases == {Case(n, t, s, a, v, m, f) : n \in SUBSET (1 .. 5), t \in BOOLEAN, s \in Few, a \in Asks, v \in {0, 1}, m \in BOOLEAN, f \in BOOLEAN}
ContentCases == {Case({3, 4}, t, s, a, v, m, f) : t \in BOOLEAN, s \in Contents, a \in {F("IceCube", Names[3].low), F("ice", <<"i", "c", "e">>)}, v \in {0, 1, 2, 4, 5, 6, 9}, m \in BOOLEAN, f \in BOOLEAN}
Init == c \in CASE What = "versions" -> {[g |-> "version", v |-> v] : v \in Ver} [] What = "order" -> {[g |-> "order", v |-> v] : v \in Small} [] What = "names" -> NameCases [] What = "contents" -> ContentCases
Next == PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
\* a strict total order in which spelling alone does not tell versions apart
Inv == What = "order" => \A w \in Small : /\ ~(Less(c.v, w) /\ Less(w, c.v)) /\ ((c.v = w) = (~Less(c.v, w) /\ ~Less(w, c.v))) /\ ((c.v = w) = (Norm(c.v) = Norm(w)))
    /\ \A u \in Small : (Less(c.v, w) /\ Less(w, u)) => Less(c.v, u)
================================================================================
