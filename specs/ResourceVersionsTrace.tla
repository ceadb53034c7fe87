------------------------- MODULE ResourceVersionsTrace -------------------------
EXTENDS ResourceVersions, TraceLib
VARIABLE i
Version(o) == FirstBad(<<
    <<"normal form", o.full => o.norm = Norm(o.v)>>,
    <<"normal form is stable", o.again = o.norm>>,
    <<"not a version", o.junk>> >>)
Order(o) == LET n == Len(o.vs) IN FirstBad(<<
    <<"order", \A a \in 1 .. n, b \in 1 .. n : o.lt[a][b] = Less(o.vs[a], o.vs[b])>>,
    <<"equal versions", \A a \in 1 .. n, b \in 1 .. n : o.eq[a][b] = (o.vs[a] = o.vs[b])>> >>)
Locate(o) == FirstBad(<< <<"folder", o.path \in Find(o.tree, o.ask)>>, <<"nothing is created", o.tidy>> >>)
\* a loader: the file at the time of the call is what answers
Load(o) == FirstBad(<<
    <<"answers", \A k \in 1 .. Len(o.xs) : LET x == o.xs[k] IN CASE x.file = "good" -> x.got = x.mark [] x.file = "none" -> x.got = -1 [] x.file = "broken" -> x.got = -2 [] x.file = "noload" -> x.got = -3>>,
    <<"arguments are passed on", \A k \in 1 .. Len(o.xs) : o.xs[k].args>>,
    <<"no module stays behind", \A k \in 1 .. Len(o.xs) : o.xs[k].clean>>,
    <<"documentation and helpers of the loader", \A k \in 1 .. Len(o.xs) : o.xs[k].doc>> >>)
List(o) == FirstBad(<< <<"listing", o.got = o.want>> >>)
V(o) == CASE o.g = "version" -> Version(o) [] o.g = "order" -> Order(o) [] o.g = "find" -> Locate(o) [] o.g = "load" -> Load(o) [] o.g = "list" -> List(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, V(T[i])) /\ Done(i) /\ i' = i + 1
================================================================================
