----------------------------- MODULE ArchiveTrace -----------------------------
EXTENDS Archive, TraceLib
VARIABLES i
\* o.turns[t].f[name] = state of the member with that name after turn t; before the first turn all are absent
St(o, t, f) == IF t = 0 THEN "absent" ELSE o.turns[t].f[f]
A(o, p) == o.calls[p].a
Own(o, p) == Under(o.calls[p].a, o.calls[p].x)
Tag(a) == CASE a = 1 -> "1" [] a = 2 -> "2" [] a = 3 -> "3" [] a = 4 -> "4"
First(o, t) == \A s \in 1 .. t - 1 : o.turns[s].p # o.turns[t].p \/ ~o.turns[s].ran
\* calls that had returned before the call p began
Start(o, p) == IF \E t \in 1 .. Len(o.turns) : o.turns[t].p = p /\ o.turns[t].ran THEN CHOOSE t \in 1 .. Len(o.turns) : o.turns[t].p = p /\ o.turns[t].ran /\ First(o, t) ELSE 0
Returned(o, p) == {q \in 1 .. Len(o.calls) : \E s \in 1 .. Start(o, p) - 1 : o.turns[s].p = q /\ o.turns[s].ev = "ok"}
Stored(o, p) == \E q \in Returned(o, p) : A(o, q) = A(o, p)
\* names that are members of one of the archives called only
Clear(o, f) == Cardinality({a \in {A(o, p) : p \in 1 .. Len(o.calls)} : f \in Archives[a].m}) = 1
TurnBad(o, t) == LET x == o.turns[t] c == o.calls[x.p] IN FirstBad(<<
    <<"foreign", \A f \in Files : St(o, t, f) # St(o, t - 1, f) => f \in Own(o, x.p)>>,
    <<"stays", \A s \in 1 .. t : o.turns[s].ev = "ok" => \A f \in Own(o, o.turns[s].p) : Clear(o, f) => St(o, t, f) = Tag(A(o, o.turns[s].p))>>,
    <<"wrong-content", x.ev = "ok" => \A f \in Own(o, x.p) : St(o, t, f) \in {Tag(a) : a \in 1 .. 4}>>,
    <<"unpacked-nothing", x.ev = "ok" => Own(o, x.p) # {}>>,
    <<"refused", x.ev = "error" => Own(o, x.p) = {} \/ (~Good(c.srv) /\ ~Stored(o, x.p))>>,
    <<"requested-again", Stored(o, x.p) => x.req = 0>>,
    <<"outside", ~x.out>>,
    <<"left-behind", t = Len(o.turns) /\ o.nokill => x.extra = 0>> >>)
HistBad(o) == LET g[t \in 0 .. Len(o.turns)] == IF t = 0 THEN "" ELSE IF g[t-1] # "" THEN g[t-1] ELSE TurnBad(o, t) IN g[Len(o.turns)]
\* an archive one of whose members would leave the directory is refused and nothing outside changes
EvilBad(o) == FirstBad(<<<<"escaped", ~o.out>>, <<"accepted", o.escapes => o.ev = "error">>, <<"refused-harmless", ~o.escapes => o.ev = "ok">>, <<"not-marked", o.escapes => o.again = "error">> >>)
Bad(o) == CASE o.g = "hist" -> HistBad(o) [] o.g = "evil" -> EvilBad(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, Bad(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
