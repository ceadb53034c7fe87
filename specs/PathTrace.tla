------------------------------- MODULE PathTrace -------------------------------
EXTENDS Path, TraceLib
VARIABLE i
SameEnds(p, r, tol) == Near(p.x, r.x, tol) /\ Near(p.y, r.y, tol) /\ p.s = r.s
(* t is the distance from e, in direction g, after which depth X has been collected *)
After(f(_), tol, tail, e, g, X, t) ==
    IF X = 0 /\ t = 2147483647 THEN tail = 0 /\ Fine(f, -1600000, 1600000) = 0    \* nothing at all to meet: any distance
    ELSE IF t >= 900000000 THEN tail = 0 /\ Fine(f, e, g * 1600000) < X + tol
    ELSE t >= 0 /\ Near(Fine(f, e, e + (g * t)), X, tol)
Signed(f(_), tol, tail, e, g, X, t) == IF X >= 0 THEN After(f, tol, tail, e, g, X, t) ELSE After(f, tol, tail, e, -g, -X, -t)
Inside(f(_), tol, tail, e, o, g, X, t, long) ==
    IF X < 0 THEN t = 0
    ELSE \/ (Fine(f, e, o) <= X + tol /\ Near(t, long, 2))
         \/ (t <= long + 2 /\ After(f, tol, tail, e, g, X, t))
Sgn(v) == IF v < 0 THEN -1 ELSE 1
Bad(o) ==
  LET c == o.c  S == o.worlds[o.w]  op == o.op  p == o.pre  r == o.post
      col(k) == RhoAt(S, Mid(c, k))
      int(k) == (60 * (RhoAt(S, Mid(c, k)) * Weight(c, MatAt(S, Mid(c, k))))) + (Decay2(c) \div 2)
      tail == Decay2(c) \div 2
      ct == 20  it == 2600
      inf == Infinite(r.x) \/ Infinite(r.y)
      long == Long(r)
      moved == op.a \in {"extend", "shrink"}
      out == IF op.a = "extend" THEN 1 ELSE -1
      mine == IF moved THEN (IF op.from = "end" THEN p.y ELSE p.x) ELSE 0
      other == IF moved THEN (IF op.from = "end" THEN p.x ELSE p.y) ELSE 0
      mine2 == IF moved THEN (IF op.from = "end" THEN r.y ELSE r.x) ELSE 0
      other2 == IF moved THEN (IF op.from = "end" THEN r.x ELSE r.y) ELSE 0
      g == IF moved THEN out * (IF op.from = "end" THEN p.s ELSE -p.s) ELSE 1
      DepthMove(f(_), tol, unit, tl) ==
         LET want == IF op.by THEN op.v * unit ELSE out * ((op.v * unit) - Fine(f, p.x, p.y)) IN
         IF op.by = FALSE /\ want <= 0 THEN (o.skipped \/ Near(mine2, mine, 2)) \/ want > -tol
         ELSE IF o.skipped THEN tl = 0 /\ op.a = "extend" /\ Fine(f, mine, g * 1600000) < want + tol
         ELSE IF op.a = "shrink" /\ Near(mine2, other, 2) THEN Fine(f, mine, other) <= want + tol
         ELSE (mine2 - mine) * g >= -2 /\ Near(Fine(f, mine, mine2), want, tol) /\ (op.a = "shrink" => (other - mine2) * g >= -2)
  IN IF o.failed THEN "a call fails" ELSE FirstBad(<<
    <<"a path leaves its line", o.online>>,
    <<"detector and geometry points do not agree", o.frame>>,
    <<"setting the ends", op.a = "set" => SameEnds(r, [x |-> op.x * Scale, y |-> op.y * Scale, s |-> Sgn(op.y - op.x)], 1)>>,
    <<"setting a ray", op.a = "ray" => SameEnds(r, [x |-> op.x * Scale, y |-> IF op.len < 0 THEN op.s * Far ELSE (op.x + (op.s * op.len)) * Scale, s |-> op.s], 1)>>,
    <<"flipping", op.a = "flip" => SameEnds(r, FlipOf(p), 1)>>,
    <<"clipping to the outer bounds", op.a = "clip" => SameEnds(r, ClipOf(S, c, p), 1)>>,
    <<"another detector moves the ends", op.a = "model" => SameEnds(r, p, 1)>>,
    <<"a move is left out", o.skipped => moved /\ (inf \/ op.kind # "dist")>>,
    <<"a move moves the other end or turns the path", moved => r.s = p.s /\ Near(other2, other, 1)>>,
    <<"a move by or to a distance", moved /\ ~o.skipped /\ op.kind = "dist" =>
         LET t == IF op.by THEN op.v * Scale ELSE out * ((op.v * Scale) - Long(p))
         IN  IF op.by \/ t > 0 THEN SameEnds(r, Push(p, op.from, out * t), 2) ELSE SameEnds(r, p, 1)>>,
    <<"a move by or to a column depth", moved /\ ~(o.skipped /\ inf) /\ op.kind = "col" => DepthMove(col, ct, Scale, 0)>>,
    <<"a move by or to an interaction depth", moved /\ ~(o.skipped /\ inf) /\ op.kind = "int" => DepthMove(int, it, 15 * Scale, tail)>>,
    <<"the length is not that between the ends", IF inf THEN o.len >= Far ELSE Near(o.len, long, 2)>>,
    <<"a depth from an infinite end is answered, or one from a finite end refused", inf => o.ri /\ o.rs = Infinite(r.x) /\ o.re = Infinite(r.y)>>,
    <<"depth of the path", ~inf => Near(o.colin, Fine(col, r.x, r.y), ct) /\ Near(o.intin, Fine(int, r.x, r.y), it)>>,
    <<"column depth from an end", ~inf => \A n \in 1..Len(o.t) : LET t == o.t[n] * Scale  b == Max(0, Min(t, long)) IN
         /\ Near(o.cs[n][1], Fine(col, r.x, r.x + (r.s * b)), ct) /\ Near(o.cs[n][2], Sgn(t) * Fine(col, r.x, r.x + (r.s * t)), ct) /\ Near(o.cs[n][3], Sgn(t) * Fine(col, r.x, r.x - (r.s * t)), ct)
         /\ Near(o.ce[n][1], Fine(col, r.y, r.y - (r.s * b)), ct) /\ Near(o.ce[n][2], Sgn(t) * Fine(col, r.y, r.y + (r.s * t)), ct) /\ Near(o.ce[n][3], Sgn(t) * Fine(col, r.y, r.y - (r.s * t)), ct)>>,
    <<"interaction depth from an end", ~inf => \A n \in 1..Len(o.t) : LET t == o.t[n] * Scale  b == Max(0, Min(t, long)) IN
         /\ Near(o.is[n][1], Fine(int, r.x, r.x + (r.s * b)), it) /\ Near(o.is[n][2], Sgn(t) * Fine(int, r.x, r.x + (r.s * t)), it) /\ Near(o.is[n][3], Sgn(t) * Fine(int, r.x, r.x - (r.s * t)), it)
         /\ Near(o.ie[n][1], Fine(int, r.y, r.y - (r.s * b)), it) /\ Near(o.ie[n][2], Sgn(t) * Fine(int, r.y, r.y + (r.s * t)), it) /\ Near(o.ie[n][3], Sgn(t) * Fine(int, r.y, r.y - (r.s * t)), it)>>,
    <<"distance for a column depth from an end", ~inf => \A n \in 1..Len(o.v) : LET X == o.v[n] * Scale IN
         /\ Inside(col, ct, 0, r.x, r.y, r.s, X, o.dcs[n][1], long) /\ Signed(col, ct, 0, r.x, r.s, X, o.dcs[n][2]) /\ Signed(col, ct, 0, r.x, -r.s, X, o.dcs[n][3])
         /\ Inside(col, ct, 0, r.y, r.x, -r.s, X, o.dce[n][1], long) /\ Signed(col, ct, 0, r.y, r.s, X, o.dce[n][2]) /\ Signed(col, ct, 0, r.y, -r.s, X, o.dce[n][3])>>,
    <<"distance for an interaction depth from an end", ~inf => \A n \in 1..Len(o.v) : LET X == o.v[n] * (15 * Scale) IN
         /\ Inside(int, it, tail, r.x, r.y, r.s, X, o.dis[n][1], long) /\ Signed(int, it, tail, r.x, r.s, X, o.dis[n][2]) /\ Signed(int, it, tail, r.x, -r.s, X, o.dis[n][3])
         /\ Inside(int, it, tail, r.y, r.x, -r.s, X, o.die[n][1], long) /\ Signed(int, it, tail, r.y, r.s, X, o.die[n][2]) /\ Signed(int, it, tail, r.y, -r.s, X, o.die[n][3])>>,
    <<"what lies within the path", ~inf => \A n \in 1..Len(o.at) : LET z == o.at[n] * Scale  in == Min(r.x, r.y) <= z /\ z <= Max(r.x, r.y)  amb == Near(z, r.x, 60) \/ Near(z, r.y, 60) IN
         amb \/ (o.within[n][1] = in /\ o.within[n][2] = in)>>,
    <<"the distance of a point from the start", ~inf => \A n \in 1..Len(o.at) : LET z == o.at[n] * Scale  t == Max(0, (z - r.x) * r.s) IN
         t <= long => Near(o.ds[n][1], t, 2) /\ Near(o.ds[n][2], t, 2)>>
  >>)
Init == i = 0
Next == i < Len(T) /\ i' = i + 1 /\ Report(i', Bad(T[i'])) /\ Done(i')
===============================================================================
