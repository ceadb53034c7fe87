------------------------------ MODULE PathDesign ------------------------------
(* Histories of a path: set, extended, shrunk, flipped, clipped, given another *)
(* detector.  Positions on a line are in ten-thousandths of a step (Scale).    *)
EXTENDS Path, TLC, Json
CONSTANTS N, Ops
VARIABLES i, D
Pick(s, d) == s[(d % Len(s)) + 1]
Box6(a) == LET lo == << 6 * ((a % 6) - 4), 6 * (((a \div 6) % 6) - 4), 6 * (((a \div 36) % 5) - 3) >>
               w == Pick(<< <<2,2,2>>, <<4,2,3>>, <<6,6,6>>, <<3,5,2>>, <<8,8,8>>, <<2,6,4>> >>, a \div 180)
           IN  << lo, [j \in 1..3 |-> lo[j] + (6 * w[j])] >>
Sector(n, l, a, e) == [n |-> n, l |-> l, t |-> "box", b |-> Box6(a), c |-> Box6(a), r |-> Pick(<<1, 2, 3, 5, 9, 0>>, e), m |-> ((e \div 6) % 3) + 1]
World(d) == << Sector("a", 0, d[1], d[4]), Sector("b", 2, d[2], d[4] \div 18), Sector("c", 1, d[3], d[4] \div 324) >>
LineOf(x, y) == [q |-> LET p == Pick(<< <<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<1,3,2>>, <<2,1,3>>, <<3,2,1>> >>, x)
                          IN << (p[1] + (6 * ((x \div 6) % 3))) - 6, (p[2] + (6 * ((x \div 18) % 3))) - 6, (p[3] + (6 * ((x \div 54) % 3))) - 6 >>,
                 d |-> LET d == << (y % 3) - 1, ((y \div 3) % 3) - 1, ((y \div 9) % 3) - 1 >> IN IF d = <<0,0,0>> THEN <<0,0,1>> ELSE d,
                 w |-> << (y \div 27) % 4, (y \div 108) % 3, (y \div 324) % 2 >>, L |-> Pick(<<0, 0, 4, 10, 30>>, y \div 648)]
(* another line: the same one shifted, or one through the same point *)
Second(c, x, y) == IF x % 4 = 0 THEN [c EXCEPT !.d = LineOf(0, y).d] ELSE [c EXCEPT !.q[(x % 3) + 1] = @ + Pick(<<6, -6, 12, 18>>, y)]
Other(x, y) == IF x = y THEN y + 1 ELSE y
Kinds == << "dist", "dist", "col", "col", "int", "int" >>
OpOf(d) ==
    LET k == d[1] % 20 IN
    CASE k = 0 -> [a |-> "set", x |-> (d[2] % 61) - 30, y |-> Other((d[2] % 61) - 30, (d[3] % 61) - 30), geo |-> d[4] % 2 = 0, ln |-> (d[6] % 2) + 1]
      [] k = 1 -> [a |-> "ray", x |-> (d[2] % 61) - 30, s |-> Pick(<<1, -1>>, d[3]), len |-> Pick(<<-1, 0, -1, 5, 12, 30, 50>>, d[4]), geo |-> d[5] % 2 = 0, ln |-> (d[6] % 2) + 1]
      [] k \in {2, 16} -> [a |-> "flip"]
      [] k \in {3, 17} -> [a |-> "clip"]
      [] k = 4 -> [a |-> "model", to |-> (d[2] % 2) + 1]
      [] OTHER -> [a |-> Pick(<<"extend", "extend", "shrink">>, d[2]), from |-> Pick(<<"start", "end">>, d[3]), by |-> d[4] % 2 = 0, kind |-> Pick(Kinds, d[5]),
                   v |-> Pick(<<1, 3, 7, 13, 29, 0>>, d[6])]
CaseOf(d) == [worlds |-> << World(d[1]), World(d[2]) >>, O |-> << (d[3][1] % 41) - 20, (d[3][2] % 11) - 5, Pick(<<0, 7, -40>>, d[3][3]) >>, Q |-> Pick(<< <<1,0,0,0>>, <<1,1,0,0>>, <<1,1,1,1>>, <<2,1,0,-1>>, <<3,-1,2,1>> >>, d[3][4]),
              lines |-> << LineOf(d[3][5], d[3][6]), Second(LineOf(d[3][5], d[3][6]), d[4][4], d[4][5]) >>, ops |-> << [a |-> "set", x |-> (d[4][1] % 41) - 20, y |-> Other((d[4][1] % 41) - 20, (d[4][2] % 41) - 20), geo |-> d[4][3] % 2 = 0, ln |-> 1] >> \o [j \in 1..Ops |-> OpOf(d[j + 4])],
              looks |-> [j \in 1..(Ops + 1) |-> (d[Min(j + 3, Ops + 4)][5] \div 7) % 3 = 0]]
Init == i = 0 /\ D = <<>>
Next == /\ i < N
        /\ i' = i + 1
        /\ D' = [j \in 1..(Ops + 4) |-> [m \in 1..6 |-> RandomElement(0..99999)]]
        /\ PrintT(<<"EMIT", ToJson(CaseOf(D'))>>)
(* ---- laws -------------------------------------------------------------------- *)
Laws == D # <<>> =>
    LET h == CaseOf(D)  S == h.worlds[1]  c == h.lines[1]
        col(k) == ColRate(S, c, k)
        x == (h.ops[1].x * Scale) + 1234  y == (h.ops[1].y * Scale) - 777
        z == (x \div 2) + (y \div 2)
    IN  \* the fine depth agrees with the coarse one, adds up and does not depend on the order
        /\ Fine(col, h.ops[1].x * Scale, h.ops[1].y * Scale) = Scale * Between(col, h.ops[1].x, h.ops[1].y)
        /\ Fine(col, x, y) = Fine(col, y, x)
        /\ Fine(col, x, y) = Fine(col, x, z) + Fine(col, z, y)
        \* flipping twice and clipping twice change nothing more
        /\ LET p == [x |-> x, y |-> y, s |-> IF x <= y THEN 1 ELSE -1] IN
              /\ FlipOf(FlipOf(p)) = p
              /\ ClipOf(S, c, ClipOf(S, c, p)) = ClipOf(S, c, p)
              /\ Overlap(S, c, p) => FlipOf(ClipOf(S, c, FlipOf(p))) = ClipOf(S, c, p)
===============================================================================
