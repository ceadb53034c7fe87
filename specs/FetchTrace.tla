------------------------------ MODULE FetchTrace ------------------------------
EXTENDS Fetch, TraceLib
VARIABLES i
\* the content before turn t
Before(o, t) == IF t = 1 THEN o.init ELSE o.turns[t - 1].dest
First(o, t) == \A s \in 1 .. t - 1 : o.turns[s].p # o.turns[t].p \/ ~o.turns[s].ran
\* the file existed when the call started to run
Skips(o, p) == o.calls[p].k # "file" /\ \E t \in 1 .. Len(o.turns) : o.turns[t].p = p /\ o.turns[t].ran /\ First(o, t) /\ Before(o, t) # "absent"
TurnBad(o, t) == LET x == o.turns[t] c == o.calls[x.p] b == Before(o, t) IN FirstBad(<<
    <<"content", x.dest \in Possible(o.init, o.calls)>>,
    <<"changed-by-other", x.dest # b => Accepted(c) /\ x.dest = Got(c) /\ x.ran>>,
    <<"lost", b # "absent" => x.dest # "absent">>,
    <<"skipped", Skips(o, x.p) => x.dest = b /\ x.req = 0>>,
    <<"returned", x.ev = "ok" => x.dest # "absent" /\ (Accepted(c) \/ c.k # "file")>>,
    <<"returned-old", x.ev = "ok" /\ ~Skips(o, x.p) /\ c.k = "file" => \E q \in 1 .. Len(o.calls) : Accepted(o.calls[q]) /\ Got(o.calls[q]) = x.dest>>,
    <<"not-checked", x.ev = "ok" /\ c.k # "file" /\ b = "absent" => Accepted(c)>>,
    <<"refused", x.ev = "error" => ~Accepted(c) /\ ~Skips(o, x.p)>>,
    <<"left-behind", t = Len(o.turns) /\ o.nokill => x.extra = 0>>,
    <<"mode", x.mode>> >>)
FileBad(o) == LET g[t \in 0 .. Len(o.turns)] == IF t = 0 THEN "" ELSE IF g[t-1] # "" THEN g[t-1] ELSE TurnBad(o, t) IN g[Len(o.turns)]
\* lists of files: each entry [there, url ("ok", "bad", "none")]; everything up to the first failing download is fetched
ListBad(o) == LET fail == {k \in 1 .. Len(o.specs) : ~o.specs[k].there /\ o.specs[k].url = "bad"}
                  stop == IF fail = {} THEN Len(o.specs) + 1 ELSE CHOOSE k \in fail : \A m \in fail : k <= m
                  none == {k \in 1 .. Len(o.specs) : ~o.specs[k].there /\ o.specs[k].url = "none"} IN FirstBad(<<
    <<"kept", \A k \in 1 .. Len(o.specs) : o.specs[k].there => o.after[k] = "old">>,
    <<"fetched", \A k \in 1 .. Len(o.specs) : ~o.specs[k].there /\ k < stop /\ o.specs[k].url = "ok" => o.after[k] = "good">>,
    <<"not-fetched", \A k \in 1 .. Len(o.specs) : ~o.specs[k].there /\ o.specs[k].url # "ok" => o.after[k] = "absent">>,
    <<"no-other", \A k \in 1 .. Len(o.specs) : o.after[k] \in {"absent", "old", "good"}>>,
    <<"raised", (o.ev = "error") = (fail # {} \/ none # {})>>,
    <<"requests", o.req <= Cardinality({k \in 1 .. Len(o.specs) : ~o.specs[k].there /\ o.specs[k].url # "none"}) + o.api>> >>)
\* the data directory: the given one when it can be written, else the mirror under the home directory
DirBad(o) == LET g[t \in 0 .. Len(o.turns)] == IF t = 0 THEN "" ELSE IF g[t-1] # "" THEN g[t-1] ELSE
                 IF o.turns[t].ev = "ok" /\ o.turns[t].res # (IF o.ro THEN "mirror" ELSE "given") THEN "directory"
                 ELSE IF o.turns[t].ev = "error" THEN "directory-error" ELSE IF t = Len(o.turns) /\ o.nokill /\ o.turns[t].extra # 0 THEN "left-behind" ELSE "" IN g[Len(o.turns)]
\* a file that came with the installation is preferred
PathBad(o) == IF o.res = (IF o.install = "file" THEN "install" ELSE "download") THEN "" ELSE "path"
Bad(o) == CASE o.g = "path" -> PathBad(o) [] o.g = "file" -> FileBad(o) [] o.g = "list" -> ListBad(o) [] o.g = "dir" -> DirBad(o)
Init == i = 1
Next == i <= Len(T) /\ Report(i, Bad(T[i])) /\ Done(i) /\ i' = i + 1
=============================================================================
