------------------------------- MODULE Detector -------------------------------
(* A detector: solid sectors of constant density and one material each, on top *)
(* of one another by level, inside a universe that is practically empty, seen  *)
(* from a detector frame.  Lines through it are walked in whole steps; sector  *)
(* faces lie on multiples of six and lines avoid all edges, so that a line     *)
(* changes sector only between two steps.                                      *)
EXTENDS Integers, Sequences
Universe == -1000
Fresh == [S |-> <<>>, O |-> <<0, 0, 0>>, Q |-> <<1, 0, 0, 0>>]
(* ---- what happens to the model --------------------------------------------- *)
Levels(S) == {S[i].l : i \in 1..Len(S)}
Names(S) == {S[i].n : i \in 1..Len(S)}
Distinct(S) == \A i, j \in 1..Len(S) : i # j => S[i].l # S[j].l /\ S[i].n # S[j].n
Refused(st, op) == CASE op.a = "add" -> op.s.l \in Levels(st.S) \/ op.s.n \in Names(st.S)
                     [] op.a = "set" -> ~Distinct(op.ss)
                     [] OTHER -> FALSE
Apply(st, op) == IF Refused(st, op) THEN st        \* and nothing of it remains
                 ELSE CASE op.a = "add" -> [st EXCEPT !.S = Append(@, op.s)]
                        [] op.a = "set" -> [st EXCEPT !.S = op.ss]
                        [] op.a = "clear" -> [st EXCEPT !.S = <<>>]
                        [] op.a = "frame" -> [st EXCEPT !.O = op.O, !.Q = op.Q]
                        [] OTHER -> st              \* reload, look
RECURSIVE Run(_, _)
Run(st, ops) == IF ops = <<>> THEN st ELSE Run(Apply(st, Head(ops)), Tail(ops))
(* ---- which sector a place belongs to (coordinates doubled) ------------------ *)
InBox(b, p) == \A i \in 1..3 : 2 * b[1][i] < p[i] /\ p[i] < 2 * b[2][i]
InSec(s, p) == CASE s.t = "box" -> InBox(s.b, p)
                 [] s.t = "union" -> InBox(s.b, p) \/ InBox(s.c, p)
                 [] s.t = "minus" -> InBox(s.b, p) /\ ~InBox(s.c, p)
                 [] OTHER -> InBox(s.b, p) /\ InBox(s.c, p)
RECURSIVE Top(_, _)       \* index of the highest sector that holds the point, 0 if none
Top(S, p) == IF S = <<>> THEN 0
             ELSE LET n == Len(S)  u == Top(SubSeq(S, 1, n - 1), p)
                  IN  IF InSec(S[n], p) /\ (u = 0 \/ S[u].l < S[n].l) THEN n ELSE u
Spot(c, k) == [i \in 1..3 |-> (2 * c.q[i]) + (2 * (k * c.d[i]))]            \* at step k
Mid(c, k) == [i \in 1..3 |-> (2 * c.q[i]) + (((2 * k) + 1) * c.d[i])]       \* between steps k and k + 1
LevelAt(S, p) == LET u == Top(S, p) IN IF u = 0 THEN Universe ELSE S[u].l
RhoAt(S, p) == LET u == Top(S, p) IN IF u = 0 THEN 0 ELSE S[u].r
MatAt(S, p) == LET u == Top(S, p) IN IF u = 0 THEN 0 ELSE S[u].m
(* ---- column depth and interaction depth per step, doubled ------------------- *)
(* c.w[m] is the weight (cross section) of the nucleus of material m, 0 if it   *)
(* is not asked for; c.L the decay length in steps, 0 without decay             *)
Decay2(c) == IF c.L = 0 THEN 0 ELSE 120 \div c.L
Weight(c, m) == IF m = 0 THEN 0 ELSE c.w[m]
ColRate(S, c, k) == 2 * RhoAt(S, Mid(c, k))
IntRate(S, c, k) == (120 * (RhoAt(S, Mid(c, k)) * Weight(c, MatAt(S, Mid(c, k))))) + Decay2(c)
MatRate(S, c, m, k) == IF MatAt(S, Mid(c, k)) = m THEN 2 * RhoAt(S, Mid(c, k)) ELSE 0
RECURSIVE Sum(_, _, _)
Sum(f(_), a, b) == IF a >= b THEN 0 ELSE f(a) + Sum(f, a + 1, b)
Between(f(_), a, b) == IF a <= b THEN Sum(f, a, b) ELSE Sum(f, b, a)
(* ---- how far to walk until depth X2 is reached: in 10^-4 steps, -1 never ----- *)
Scale == 10000
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(f(_), tail, k0, s, j, acc, X2) ==
    IF j > 80 THEN (IF tail = 0 THEN -1 ELSE (j * Scale) + (((X2 - acc) * Scale) \div tail))
    ELSE LET r == f(IF s = 1 THEN k0 + j ELSE (k0 - j) - 1)
         IN  IF acc + r >= X2 THEN (j * Scale) + (((X2 - acc) * Scale) \div r)
             ELSE Walk(f, tail, k0, s, j + 1, acc + r, X2)
Reach(f(_), tail, k0, s, X2) == Walk(f, tail, k0, s, 0, 0, X2)
(* ---- the first and last face of any sector along the line, in steps ---------- *)
RECURSIVE FirstIn(_, _, _, _)
FirstIn(S, c, k, n) == IF k > n THEN n ELSE IF \E i \in 1..Len(S) : InSec(S[i], Mid(c, k)) THEN k ELSE FirstIn(S, c, k + 1, n)
RECURSIVE LastIn(_, _, _, _)
LastIn(S, c, k, n) == IF k < n THEN n ELSE IF \E i \in 1..Len(S) : InSec(S[i], Mid(c, k)) THEN k + 1 ELSE LastIn(S, c, k - 1, n)
Touched(S, c) == \E k \in -66..66 : \E i \in 1..Len(S) : InSec(S[i], Mid(c, k))
===============================================================================
