---------------------------- MODULE ExternalEvents ----------------------------
(* A list of external events in a comma separated file: the header names the     *)
(* columns, every row is an event. Rows below the energy threshold are left out. *)
(* The cell of row r in column c is Cell(c, r).                                   *)
EXTENDS Integers, Sequences, FiniteSets
Triples == <<{"x0", "y0", "z0"}, {"x", "y", "z"}, {"px", "py", "pz"}>>
Known == UNION {Triples[k] : k \in 1 .. 3} \cup {"t0", "E", "m"}
Has(c, n) == \E k \in 1 .. Len(c.keys) : c.keys[k] = n
HasT(c, k) == \A n \in Triples[k] : Has(c, n)
Part(c, k) == (\E n \in Triples[k] : Has(c, n)) /\ ~HasT(c, k)
\* ---- the value of a cell: rows are multiples s of consistent kinematics --------------------
Base(n) == CASE n = "px" -> 1 [] n = "py" -> 2 [] n = "pz" -> 2 [] n = "E" -> 5 [] n = "m" -> 4 [] n = "t0" -> 7
             [] n = "x0" -> 3 [] n = "y0" -> -1 [] n = "z0" -> 6 [] n = "x" -> 11 [] n = "y" -> -4 [] n = "z" -> 8
             [] n = "w" -> 13 [] n = "X" -> -9 [] n = "e" -> 17
Cell(n, s) == Base(n) * s
\* ---- which rows are read; rows are [k: kind, s: multiplier] -------------------------------
IsData(r) == r.k \notin {"blank", "hash", "spaces"}
Below(c, r) == Has(c, "E") /\ Cell("E", r.s) < c.emin
Bad(c) == \/ \E k \in 1 .. 3 : Part(c, k)
          \/ \E k \in 1 .. Len(c.rows) : c.rows[k].k \in {"short", "long", "word"}
          \/ {k \in 1 .. Len(c.rows) : IsData(c.rows[k]) /\ ~Below(c, c.rows[k])} = {}
          \/ c.missing
Kept(c) == {k \in 1 .. Len(c.rows) : IsData(c.rows[k]) /\ ~Below(c, c.rows[k])}
\* ---- what a sampled event of row multiplier s looks like --------------------------------
Vec(k, s) == CASE k = 1 -> <<Cell("x0", s), Cell("y0", s), Cell("z0", s)>> [] k = 2 -> <<Cell("x", s), Cell("y", s), Cell("z", s)>> [] k = 3 -> <<Cell("px", s), Cell("py", s), Cell("pz", s)>>
InitialPosition(c, s) == IF HasT(c, 1) THEN Vec(1, s) ELSE IF HasT(c, 2) THEN Vec(2, s) ELSE <<>>
Vertex(c, s) == IF HasT(c, 2) THEN Vec(2, s) ELSE <<>>
Momentum(c, s) == IF HasT(c, 3) THEN Vec(3, s) ELSE <<>>
Extra(c) == {c.keys[k] : k \in 1 .. Len(c.keys)} \ Known
\* the stored events of a configuration as a bag of multipliers
Mult(c, s) == Cardinality({k \in Kept(c) : c.rows[k].s = s})
=============================================================================
