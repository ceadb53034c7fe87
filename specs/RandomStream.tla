----------------------------- MODULE RandomStream -----------------------------
(* Random number streams. The numbers of a stream are a function of its seed and *)
(* of how many have been taken; every request takes exactly one. A slot is a     *)
(* stream position [s, n] (seed, numbers taken). Copies continue independently   *)
(* from the same position; storing keeps the seed only, so a reloaded stream     *)
(* starts over; set_seed starts the stream of that seed.                         *)
EXTENDS Integers, Sequences, FiniteSets
Slots == 1 .. 2
InitState == <<[s |-> 1, n |-> 0], [s |-> 2, n |-> 0]>>
Draws == {"unit", "range", "flip", "point", "pow"}
\* the position a draw is taken from
Key(st, o) == <<st[o.k].s, st[o.k].n>>
Step(st, o) == CASE o.op \in Draws -> [st EXCEPT ![o.k].n = @ + 1]
                 [] o.op \in {"new", "set"} -> [st EXCEPT ![o.k] = [s |-> o.v, n |-> 0]]
                 [] o.op = "copy" -> [st EXCEPT ![3 - o.k] = st[o.k]]
                 [] o.op = "reload" -> [st EXCEPT ![o.k].n = 0]
                 [] OTHER -> st
\* the value of a stream at a position: unknown, but a function; different positions give different numbers
AbsI(x) == IF x < 0 THEN -x ELSE x
Consistent(a, b) == IF a.key = b.key THEN AbsI(a.u - b.u) <= 20 ELSE AbsI(a.u - b.u) > 20
BP == 10000
Compatible(cnt, tot, m) == LET e == ((tot \div 100) * m) \div 100  d == AbsI(cnt - e) - 3 IN d <= 0 \/ (d <= 40000 /\ d * d <= 36 * e + 100)
=============================================================================
