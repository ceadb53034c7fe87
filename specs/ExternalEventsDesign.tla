------------------------- MODULE ExternalEventsDesign -------------------------
EXTENDS ExternalEvents, TLC, Json
CONSTANTS Part_
VARIABLES c
R(k, s) == [k |-> k, s |-> s]
Good == <<R("data", 1), R("data", 2), R("data", 3)>>
Cfg(keys, rows, emin, missing) == [keys |-> keys, rows |-> rows, emin |-> emin, missing |-> missing, sep |-> "plain"]
K1 == <<"E", "m", "px", "py", "pz", "x0", "y0", "z0", "x", "y", "z", "t0">>
RowKinds == {"data", "short", "long", "word", "blank", "hash", "spaces", "padded"}
AllCols == {"x0", "y0", "z0", "x", "y", "z", "px", "py", "pz", "t0", "E", "m", "w", "X", "e"}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE v \in S : TRUE IN <<e>> \o SeqOf(S \ {e})
Init == \/ /\ Part_ = "cols"        \* every subset of whole triples and single columns
           /\ c \in {Cfg(SeqOf((UNION {Triples[k] : k \in t}) \cup o), Good, e, FALSE) : t \in SUBSET {1, 2, 3}, o \in (SUBSET {"t0", "E", "m", "w", "X", "e"}) \ {{}}, e \in {0, 6}}
        \/ /\ Part_ = "broken"      \* incomplete triples
           /\ c \in {Cfg(SeqOf(((UNION {Triples[k] : k \in t}) \ d) \cup {"E"}), Good, 0, FALSE) : t \in {{1}, {2}, {3}, {1, 2}, {1, 2, 3}}, d \in SUBSET {"x0", "y0", "z0", "x", "y", "z", "px", "py", "pz"}}
        \/ /\ Part_ = "rows"        \* row kinds, multipliers and thresholds
           /\ c \in {Cfg(<<"E", "px", "py", "pz", "w">>, rs, e, FALSE) : rs \in UNION {[1 .. n -> {R(k, s) : k \in RowKinds, s \in 1 .. 2}] : n \in 0 .. 2}, e \in {0, 5, 7, 10, 11}}
        \/ /\ Part_ = "many"
           /\ c \in {Cfg(<<"m", "w", "E">>, [k \in 1 .. n |-> R("data", ((k * st) % 5) + 1)], e, ms) : n \in 1 .. 6, st \in 1 .. 3, e \in {0, 10, 16, 26}, ms \in BOOLEAN}
Next == PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
\* a file that is accepted has an event to give, above the threshold
Inv == ~Bad(c) => \E k \in Kept(c) : (Has(c, "E") => Cell("E", c.rows[k].s) >= c.emin)
=============================================================================
