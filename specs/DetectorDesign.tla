----------------------------- MODULE DetectorDesign ----------------------------
(* Histories of a detector model with a line looked along after every change,  *)
(* and laws of the depths, checked on random detectors.                        *)
EXTENDS Detector, TLC, Json
CONSTANTS N, Ops
VARIABLES i, D, st
Pick(s, d) == s[(d % Len(s)) + 1]
Box6(a) == LET lo == << 6 * ((a % 6) - 4), 6 * (((a \div 6) % 6) - 4), 6 * (((a \div 36) % 5) - 3) >>
               w == Pick(<< <<1,1,1>>, <<2,2,2>>, <<4,2,3>>, <<6,6,6>>, <<1,5,2>>, <<3,3,1>>, <<8,8,8>>, <<2,6,4>> >>, a \div 180)
           IN  << lo, [j \in 1..3 |-> lo[j] + (6 * w[j])] >>
Sector(a, b, e) == [n |-> Pick(<<"s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8">>, e), l |-> ((e \div 8) % 12) - 4,
                    t |-> Pick(<<"box", "box", "box", "union", "minus", "inter">>, e \div 96), b |-> Box6(a), c |-> Box6(b), r |-> Pick(<<1, 2, 3, 5, 9, 0>>, e \div 576), m |-> ((e \div 3456) % 3) + 1]
CubeQ == << <<1,0,0,0>>, <<1,1,0,0>>, <<1,0,1,0>>, <<1,1,1,1>>, <<1,-1,1,1>>, <<0,1,1,0>>, <<2,1,0,-1>>, <<3,-1,2,1>> >>
Off(a) == 6 * ((a % 3) - 1)
LineOf(x, y, z) == [q |-> LET p == Pick(<< <<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<1,3,2>>, <<2,1,3>>, <<3,2,1>> >>, x)
                          IN << p[1] + Off(x \div 6), p[2] + Off(x \div 18), p[3] + Off(x \div 54) >>,
                    d |-> LET d == << (y % 3) - 1, ((y \div 3) % 3) - 1, ((y \div 9) % 3) - 1 >> IN IF d = <<0,0,0>> THEN <<0,0,1>> ELSE d,
                    w |-> << (y \div 27) % 4, (y \div 108) % 3, (y \div 324) % 2 >>, L |-> Pick(<<0, 0, 4, 10, 30>>, z),
                    ks |-> << ((z \div 5) % 31) - 15, ((z \div 155) % 41) - 20, ((x \div 162) % 25) - 12 >>, X |-> (2 * ((y \div 648) % 90)) + 1, Y |-> Pick(<<1, 3, 41, 301, 1001, 4001>>, z \div 6355),
                    base |-> Pick(<<0, 1, -1, 7, -30>>, z \div 38130), rev |-> (x \div 4050) % 2 = 1]
OpOf(d, st0) ==
    LET s == Sector(d[2], d[3], d[4]) IN
    CASE d[1] % 10 <= 4 -> [a |-> "add", s |-> s]
      [] d[1] % 10 = 5 -> [a |-> "set", ss |-> << [s EXCEPT !.n = "u1"], Sector(d[3], d[2], d[5]) >> \o (IF d[5] % 3 = 0 THEN <<[s EXCEPT !.l = 9]>> ELSE <<>>)]
      [] d[1] % 10 = 6 -> [a |-> "frame", O |-> << (d[2] % 41) - 20, (d[3] % 11) - 5, Pick(<<0, 7, -400>>, d[4]) >>, Q |-> Pick(CubeQ, d[5])]
      [] d[1] % 10 = 7 -> [a |-> "reload", json |-> d[2] % 2 = 0]
      [] d[1] % 10 = 8 -> (IF d[2] % 4 = 0 THEN [a |-> "clear"] ELSE [a |-> "look"])
      [] OTHER -> [a |-> "add", s |-> [s EXCEPT !.l = IF st0.S = <<>> THEN @ ELSE Pick(st0.S, d[5]).l, !.n = IF d[4] % 2 = 0 \/ st0.S = <<>> THEN @ ELSE Pick(st0.S, d[5]).n]]
RECURSIVE Build(_, _)
Build(d, st0) == IF d = <<>> THEN <<>>
                 ELSE LET op == OpOf(Head(d), st0) IN << [op |-> op, c |-> LineOf(Head(d)[6], Head(d)[7], Head(d)[8])] >> \o Build(Tail(d), Apply(st0, op))
Init == i = 0 /\ D = <<>> /\ st = Fresh
Step == /\ i < N
        /\ i' = i + 1
        /\ D' = [j \in 1..Ops |-> [m \in 1..8 |-> RandomElement(0..999999)]]
        /\ st' = Run(Fresh, [j \in 1..Ops |-> Build(D', Fresh)[j].op])
        /\ PrintT(<<"EMIT", ToJson(Build(D', Fresh))>>)
Next == Step
(* ---- laws -------------------------------------------------------------------- *)
Laws == D # <<>> =>
    LET h == Build(D, Fresh)  c == h[Len(h)].c  S == st.S
        col(k) == ColRate(S, c, k)  int(k) == IntRate(S, c, k)
        a == c.ks[1]  b == c.ks[2]
        m(j, k) == MatRate(S, c, j, k)
        one(k) == m(1, k)  two(k) == m(2, k)  three(k) == m(3, k)
    IN  /\ Distinct(S)
        /\ \A k \in -66..66 : LET u == Top(S, Mid(c, k)) IN
              /\ (u # 0 => InSec(S[u], Mid(c, k)))
              /\ \A j \in 1..Len(S) : InSec(S[j], Mid(c, k)) => u # 0 /\ S[j].l <= S[u].l
        \* a step lies in one sector
        /\ \A k \in -66..66 : (\A j \in 1..3 : Spot(c, k)[j] % 12 # 0) => Top(S, Spot(c, k)) \in {Top(S, Mid(c, k)), Top(S, Mid(c, k - 1))}
        \* depths add up, over the way and over the materials
        /\ \A e \in -12..12 : a <= e /\ e <= b => Between(col, a, b) = Between(col, a, e) + Between(col, e, b)
        /\ Between(col, a, b) = Between(one, a, b) + Between(two, a, b) + Between(three, a, b)
        \* the distance for a depth has that depth: no whole step before it reaches it, and the step after it does
        /\ LET X == (2 * c.X) + 1  t == Reach(int, Decay2(c), a, 1, X)  j == t \div Scale IN
              t >= 0 /\ t < 80 * Scale => Between(int, a, a + j) < X /\ Between(int, a, a + j + 1) >= X
        \* with half the way behind one, the rest is what remains
        /\ LET X == Between(col, a, a + 12) + 1  t == Reach(col, 0, a, 1, X)  r == Reach(col, 0, a + 12, 1, 1) IN
              t = (IF r < 0 THEN -1 ELSE r + (12 * Scale))
===============================================================================
