----------------------------- MODULE DetectorTrace -----------------------------
EXTENDS Detector, TraceLib
VARIABLE i
Rows == -36..36
Never == 900000000
FarOK(e, v, s) == IF e < 0 THEN s * v >= Never ELSE Near(v, s * e, 3)
BothFar(e, v, s) == FarOK(e, v[1], s) /\ FarOK(e, v[2], s)
Both(v, e) == v[1] = e /\ v[2] = e
Bad(o) ==
  LET ops == [j \in 1..Len(o.h) |-> o.h[j].op]
      before == Run(Fresh, SubSeq(ops, 1, Len(ops) - 1))
      op == ops[Len(ops)]  st == Apply(before, op)  S == st.S  c == o.h[Len(o.h)].c
      col(k) == ColRate(S, c, k)  int(k) == IntRate(S, c, k)
      k1 == c.ks[1]  k2 == c.ks[2]  k3 == c.ks[3]
      spotint(k) == (60 * (RhoAt(S, Spot(c, k)) * Weight(c, MatAt(S, Spot(c, k))))) + (Decay2(c) \div 2)
  IN IF o.failed THEN "a query fails" ELSE FirstBad(<<
    <<"a change is accepted or refused wrongly", o.refused = Refused(before, op)>>,
    <<"the sectors are not those added", o.sectors = [j \in 1..Len(S) |-> <<S[j].n, S[j].l>>] /\ o.bylevel = [j \in 1..Len(S) |-> S[j].n] /\ o.byname = [j \in 1..Len(S) |-> S[j].l]>>,
    <<"the frames do not agree", o.frame>>,
    <<"a point is given to the wrong sector", \A r \in 1..Len(o.spots) : LET x == o.spots[r] IN x.lv = LevelAt(S, Spot(c, x.k))>>,
    <<"a point on a line is given to the wrong sector", \A r \in 1..Len(o.spots) : LET x == o.spots[r] IN x.lw = LevelAt(S, Spot(c, x.k))>>,
    <<"the density is not that of the sector", \A r \in 1..Len(o.spots) : LET x == o.spots[r] IN Both(x.rho, 1000 * RhoAt(S, Spot(c, x.k)))>>,
    <<"the density of a nucleus is not that of the sector", \A r \in 1..Len(o.spots) : LET x == o.spots[r] IN
         \A m \in 1..3 : Near(x.nuc[m], IF MatAt(S, Spot(c, x.k)) = m THEN 1000 * RhoAt(S, Spot(c, x.k)) ELSE 0, 1) /\ x.has[m] = (MatAt(S, Spot(c, x.k)) = m \/ (MatAt(S, Spot(c, x.k)) = 0 /\ m = 1))>>,
    <<"the rate of interactions is not that of the sector", \A r \in 1..Len(o.spots) : LET x == o.spots[r] IN Near(x.rate[1], 1000 * spotint(x.k), 10) /\ Near(x.rate[2], 1000 * spotint(x.k), 10)>>,
    <<"column depth is not the sum over the way", \A j \in 1..Len(o.col) : Near(o.col[j], 1000 * Between(col, k1, k2), 20)>>,
    <<"column depth of a nucleus is not the sum over the way", \A m \in 1..3 : LET f(k) == MatRate(S, c, m, k) IN Near(o.parts[m], 1000 * Between(f, k1, k2), 20)>>,
    <<"interaction depth is not the sum over the way", \A j \in 1..Len(o.depth) : Near(o.depth[j], 100 * Between(int, k1, k2), 20)>>,
    <<"distance for a column depth", BothFar(Reach(col, 0, k3, 1, c.X), o.cf, 1) /\ BothFar(Reach(col, 0, k3, -1, c.X), o.cb, -1) /\ BothFar(Reach(col, 0, k3, -1, c.X), o.ct, 1)>>,
    <<"distance for an interaction depth", BothFar(Reach(int, Decay2(c), k3, 1, c.Y), o.df, 1) /\ BothFar(Reach(int, Decay2(c), k3, -1, c.Y), o.db, -1) /\ BothFar(Reach(int, Decay2(c), k3, -1, c.Y), o.dt, 1)>>,
    <<"the outer bounds are not the first and last face", IF Touched(S, c) THEN o.outer = << FirstIn(S, c, -66, 66) * 1000, LastIn(S, c, 66, -66) * 1000 >> ELSE o.outer = <<>> >>
  >>)
Init == i = 0
Next == i < Len(T) /\ i' = i + 1 /\ Report(i', Bad(T[i'])) /\ Done(i')
===============================================================================
