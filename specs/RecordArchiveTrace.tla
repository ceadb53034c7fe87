------------------------- MODULE RecordArchiveTrace -------------------------
EXTENDS RecordArchive, TraceLib
VARIABLES i
\* one record through one archive: before/after are the rendered values of every field, in order
VRound(o) == IF o.threw THEN "archive-refused"
    ELSE LET bad == {k \in 1 .. Len(Fields) :
              o.after[k] # (IF o.fmt \in {"oldbin", "oldjson"} /\ Fields[k] \in TimeFields THEN o.zero[k] ELSE o.before[k])}
         IN IF bad = {} THEN (IF o.fmt \in {"bin", "json"} /\ ~o.equal THEN "reloaded-record-differs" ELSE "")
            ELSE "field-" \o Fields[CHOOSE k \in bad : \A j \in bad : k <= j]
\* pairwise comparison of a family of records: v[k] the variant vectors, eq/lt matrices
VFam(o) == LET N == Len(o.v) D == 1 .. N IN FirstBad(<<
    <<"equality-iff-identical", \A a, b \in D : o.eq[a][b] = (o.v[a] = o.v[b])>>,
    <<"order-irreflexive", \A a, b \in D : o.v[a] = o.v[b] => ~o.lt[a][b]>>,
    <<"order-total", \A a, b \in D : o.v[a] # o.v[b] => (o.lt[a][b] # o.lt[b][a])>>,
    <<"order-transitive", \A a, b, c \in D : o.lt[a][b] /\ o.lt[b][c] => o.lt[a][c]>> >>)
\* small values (identities, signatures, particles): round trip and comparison
VSmall(o) == FirstBad(<< <<"small-roundtrip", o.round>>, <<"small-bool", o.isset>> >>)
Verdict(o) == CASE o.op = "round" -> VRound(o) [] o.op = "family" -> VFam(o) [] o.op = "small" -> VSmall(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, Verdict(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
