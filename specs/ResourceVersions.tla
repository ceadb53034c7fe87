--------------------------- MODULE ResourceVersions ----------------------------
(* Versions of resources, their order, and the folder that stands for a model  *)
(* name: what siren's resource lookup promises.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* A version: epoch, release numbers, pre-release (0 none, 1 a, 2 b, 3 rc) and *)
(* its number, post (0 or 1) and number, dev (0 or 1) and number, local parts  *)
(* (number n or word w: the other field is 0).                                 *)
Words == <<"ab", "deb", "x">>
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Norm(v) == (IF v.e = 0 THEN "" ELSE ToString(v.e) \o "!")
    \o Join([i \in 1 .. Len(v.rel) |-> ToString(v.rel[i])], ".")
    \o (IF v.pre = 0 THEN "" ELSE <<"a", "b", "rc">>[v.pre] \o ToString(v.pn))
    \o (IF v.post = 0 THEN "" ELSE ".post" \o ToString(v.on))
    \o (IF v.dev = 0 THEN "" ELSE ".dev" \o ToString(v.dn))
    \o (IF v.loc = <<>> THEN "" ELSE "+" \o Join([i \in 1 .. Len(v.loc) |-> IF v.loc[i].w > 0 THEN Words[v.loc[i].w] ELSE ToString(v.loc[i].n)], "."))
\* a version as numbers, compared place by place; a development version of a release precedes its pre-releases,
\* pre-releases precede, the release, its post-releases; local versions come after, words before numbers
Key(v) == <<v.e>> \o <<v.rel>> \o << IF v.pre # 0 THEN <<v.pre, v.pn>> ELSE IF v.dev = 1 /\ v.post = 0 THEN <<0, 0>> ELSE <<4, 0>> >>
    \o << <<v.post, v.on>> >> \o << IF v.dev = 1 THEN <<0, v.dn>> ELSE <<1, 0>> >> \o << [i \in 1 .. (2 * Len(v.loc)) |-> LET l == v.loc[(i + 1) \div 2] IN IF i % 2 = 1 THEN (IF l.w > 0 THEN 0 ELSE 1) ELSE (IF l.w > 0 THEN l.w ELSE l.n)] >>
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLess(Tail(a), Tail(b))
RECURSIVE PartLess(_, _)
PartLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN SeqLess(a[1], b[1]) ELSE PartLess(Tail(a), Tail(b))
Less(v, w) == LET a == Key(v)  b == Key(w) IN IF a[1] # b[1] THEN a[1] < b[1] ELSE PartLess(Tail(a), Tail(b))
(* --- folders. A tree: folders of the kind, each [n, low, top, subs]: name,    *)
(* name in lower case, whether the loader lies at its top, subfolders          *)
(* [s, v]: spelling and version (<<>> without one).                            *)
\* the query: [q, low, v, must, file]; v a sequence of no or one version
StartsWith(low, q) == Len(q) <= Len(low) /\ SubSeq(low, 1, Len(q)) = q
Matches(tree, low) == LET e == {i \in 1 .. Len(tree) : tree[i].low = low} IN IF e # {} THEN e ELSE {i \in 1 .. Len(tree) : StartsWith(tree[i].low, low)}
Refused == "refused"
New(name, v) == name \o "/" \o name \o "-v" \o (IF v = <<>> THEN "1" ELSE Norm(v[1]))
Latest(ss) == {i \in 1 .. Len(ss) : ss[i].v # <<>> /\ \A j \in 1 .. Len(ss) : ss[j].v = <<>> \/ ~Less(ss[i].v[1], ss[j].v[1])}
\* the folders that may be given: one, unless the latest version is there in two spellings
Find(tree, k) == LET m == Matches(tree, k.low) IN
    IF m = {} THEN {IF k.must THEN Refused ELSE New(k.q, k.v)}
    ELSE IF Cardinality(m) > 1 THEN {Refused}
    ELSE LET f == tree[CHOOSE i \in m : TRUE]  top == k.file /\ f.top  same == {i \in 1 .. Len(f.subs) : f.subs[i].v # <<>> /\ f.subs[i].v = k.v} IN
        IF k.v = <<>> /\ top THEN {f.n}
        ELSE IF Cardinality(same) = 1 THEN {f.n \o "/" \o f.subs[CHOOSE i \in same : TRUE].s}
        ELSE IF Cardinality(same) > 1 THEN {Refused}
        ELSE IF top THEN {f.n}
        ELSE IF k.v # <<>> THEN {IF k.must THEN Refused ELSE New(f.n, k.v)}
        ELSE IF \A i \in 1 .. Len(f.subs) : f.subs[i].v = <<>> THEN {IF k.must THEN Refused ELSE New(f.n, k.v)}
        ELSE {f.n \o "/" \o f.subs[i].s : i \in Latest(f.subs)}
================================================================================
