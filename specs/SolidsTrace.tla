------------------------------ MODULE SolidsTrace ------------------------------
(* One observation: a case and the crossings the code reported along the line, *)
(* from several starts, both ways, and from copies and reloads of the solid.   *)
EXTENDS Solids, TraceLib
VARIABLE i
K(o) == 20 * o.c.f
Sorted(hs) == \A j \in 1..(Len(hs) - 1) : hs[j][1] <= hs[j+1][1] + 1
Agree(c, hs, KK) == \A k \in -KK..KK : LET v == InAt(c, k)  u == Place(c, k) IN
                        \/ v = 0 \/ Ambiguous(hs, u) \/ Status(hs, u) = (v = 1)
Closed(hs) == hs # <<>> => ~hs[Len(hs)][2]
\* a visit shorter than a hair (the line passes a corner within one) may be reported or not
RECURSIVE Squeeze(_)
Squeeze(hs) == IF Len(hs) < 2 THEN hs
               ELSE IF Near(hs[1][1], hs[2][1], 100) THEN Squeeze(SubSeq(hs, 3, Len(hs)))
               ELSE <<hs[1]>> \o Squeeze(Tail(hs))
SameList(x, y) == LET a == Squeeze(x)  b == Squeeze(y) IN Len(a) = Len(b) /\ \A j \in 1..Len(a) : Near(a[j][1], b[j][1], 20) /\ a[j][2] = b[j][2]
Back(hs) == [j \in 1..Len(hs) |-> << -hs[Len(hs) + 1 - j][1], ~hs[Len(hs) + 1 - j][2] >>]
Alternate(hs) == \A j \in 1..Len(hs) : hs[j][2] = (j % 2 = 1)
PointOK(c, r) == LET v == InAt(c, r[1]) IN
    /\ (v = 1 => r[2] /\ r[3] /\ r[4])          \* inside by both questions, and in the bounding box
    /\ (v = -1 => ~r[2] /\ ~r[3])
Dot(a, b) == (a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3])
ClosestOK(c, v) == Ab((2 * (Dot(c.d, c.d) * v)) + (100000 * Dot(c.q, c.d))) <= 100 * Dot(c.d, c.d)     \* q counts half ticks
Bad(o) == IF o.failed THEN "the code refused the solid" ELSE FirstBad(<<
    <<"crossings not in order along the line", Sorted(o.hits)>>,
    <<"crossings do not bound the points of the solid", Agree(o.c, o.hits, K(o))>>,
    <<"the line never leaves the solid", Closed(o.hits)>>,
    <<"entering and leaving do not alternate", Alternate(o.hits)>>,
    <<"a crossing's position is not on the line at its distance", o.poserr <= 10>>,
    <<"the point of closest approach is not the nearest to the solid's origin", ClosestOK(o.c, o.closest)>>,
    <<"crossings depend on where on the line one starts", SameList(o.hits, o.shifted)>>,
    <<"crossings differ when the line is walked backwards", SameList(o.hits, Back(o.reversed))>>,
    <<"crossings differ when asked in the solid's own frame", SameList(o.hits, o.localframe)>>,
    <<"a copy answers differently", SameList(o.hits, o.copied) /\ SameList(o.hits, o.assigned) /\ SameList(o.hits, o.moved)>>,
    <<"a reloaded solid answers differently", SameList(o.hits, o.bin) /\ SameList(o.hits, o.json)>>,
    <<"containment is not membership", \A j \in 1..Len(o.pts) : PointOK(o.c, o.pts[j])>>,
    <<"a crossing outside the bounding box", o.boxed /\ o.boxed2>>,
    <<"equality does not follow the definition", o.eqcopy /\ o.eqload /\ ~o.ltcopy /\ (o.altok => ~o.eqalt /\ (o.ltalt # o.gtalt))>>
  >>)
Init == i = 0
Next == i < Len(T) /\ i' = i + 1 /\ Report(i', Bad(T[i'])) /\ Done(i')
===============================================================================
