--------------------------------- MODULE Path ---------------------------------
(* A stretch of a line through a detector: two ends, in ten-thousandths of a   *)
(* step (Far when infinite), and a direction, which it keeps when empty.       *)
EXTENDS Detector
Far == 1000000000
Infinite(v) == v >= Far \/ v <= -Far
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Half(f(_), k) == f(k) \div 2
(* ---- depth between two fine positions: density of a step times part of it --- *)
Part(k, a, b) == Max(0, Min(b, (k + 1) * Scale) - Max(a, k * Scale))
RECURSIVE FineSum(_, _, _, _, _)
FineSum(f(_), k, n, a, b) == IF k > n THEN 0 ELSE (f(k) * Part(k, a, b)) + FineSum(f, k + 1, n, a, b)
Edge == 80
FineUp(f(_), a, b) == LET e == Edge * Scale  u == Max(a, -e)  v == Min(b, e)
                      IN  (IF a < -e THEN f(-Edge - 5) * (Min(b, -e) - a) ELSE 0)
                        + (IF u < v THEN FineSum(f, u \div Scale, v \div Scale, u, v) ELSE 0)
                        + (IF b > e THEN f(Edge + 5) * (b - Max(a, e)) ELSE 0)
Fine(f(_), a, b) == IF a <= b THEN FineUp(f, a, b) ELSE FineUp(f, b, a)
(* ---- changes ------------------------------------------------------------------ *)
FlipOf(p) == [x |-> p.y, y |-> p.x, s |-> -p.s]
Reach0(S, c) == << FirstIn(S, c, -66, 66) * Scale, LastIn(S, c, 66, -66) * Scale >>
Clamp(v, r) == Max(r[1], Min(r[2], v))
ClipOf(S, c, p) == IF ~Touched(S, c) THEN p
                   ELSE LET r == Reach0(S, c) IN [p EXCEPT !.x = Clamp(@, r), !.y = Clamp(@, r)]
Overlap(S, c, p) == Touched(S, c) /\ Max(Min(p.x, p.y), Reach0(S, c)[1]) < Min(Max(p.x, p.y), Reach0(S, c)[2])
Long(p) == Abs(p.y - p.x)
(* an end pushed outwards by t (inwards when negative), never past the other one *)
Push(p, from, t) == IF t < 0 /\ -t > Long(p) THEN (IF from = "end" THEN [p EXCEPT !.y = p.x] ELSE [p EXCEPT !.x = p.y])
                    ELSE IF from = "end" THEN [p EXCEPT !.y = @ + (p.s * t)] ELSE [p EXCEPT !.x = @ - (p.s * t)]
(* ---- depths asked from an end: e end, g direction, X depth ---------------------- *)
Beyond(f(_), e, g, X) == Fine(f, e, g * (Max(Abs(e), Edge * Scale) + (Edge * Scale))) < X  \* not reached among the sectors
===============================================================================
