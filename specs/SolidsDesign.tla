----------------------------- MODULE SolidsDesign -----------------------------
(* The space of cases (a solid, a placement, a line) as digit tuples, walked   *)
(* at random for the replay; and laws that tie the descriptions of the         *)
(* different solids to one another, checked on every lattice point of a block. *)
EXTENDS Solids, TLC, Json
CONSTANTS N, Grid, Kinds
VARIABLES i, c
Pick(s, d) == s[(d % Len(s)) + 1]
Full == <<0, 8>>
Wd(a, b) == << a % 8, Pick(<<8, 8, 8, 8, 8, 1, 2, 3, 4, 5, 6, 7>>, b) >>
Th(a) == Pick(<< <<0,4>>, <<0,4>>, <<0,4>>, <<0,2>>, <<1,2>>, <<1,3>>, <<2,2>>, <<0,1>>, <<0,3>>, <<3,1>>, <<2,1>> >>, a)
Inner(o, a) == Pick(<<0, 0, o \div 2, IF o > 1 THEN o - 1 ELSE 0>>, a)
Zs(a) == Pick(<< <<-4, 4>>, <<-5, -1, 4>>, <<-6, -2, 1, 5>>, <<-4, 0, 0, 4>>, <<5, 1, -4>>, <<-3, 2, 6>> >>, a)
Prim(k, D, o) ==
    CASE k = "box" -> [k |-> k, n |-> << Pick(<<2,4,6,8,10>>, D[o]), Pick(<<2,4,6,8,11>>, D[o+1]), Pick(<<2,5,6,8,10>>, D[o+2]) >>]
      [] k = "sphere" -> [k |-> k, n |-> << Pick(<<4,5,6,8>>, D[o]), Pick(<<0,0,2,3>>, D[o+1]) >>, w |-> Wd(D[o+2], D[o+3]), th |-> Th(D[o+4])]
      [] k = "cylinder" -> [k |-> k, n |-> << Pick(<<4,5,6,8>>, D[o]), Pick(<<0,0,2,3>>, D[o+1]), Pick(<<2,5,8,12>>, D[o+4]) >>, w |-> Wd(D[o+2], D[o+3])]
      [] k = "cone" -> LET o1 == Pick(<<0,2,4,5,8>>, D[o])  o2 == Pick(<<3,4,6,8>>, D[o+1]) IN
             [k |-> k, n |-> << Inner(o1, D[o+4]), o1, Inner(o2, D[o+5]), o2, Pick(<<3,6,8,12>>, D[o+6]) >>, w |-> Wd(D[o+2], D[o+3])]
      [] k = "cuttube" -> LET r == Pick(<<3,4,6>>, D[o]) IN
             [k |-> k, n |-> << Inner(r, D[o+1]), r, Pick(<<6,8>>, D[o+4]) >>, w |-> Wd(D[o+2], D[o+3]),
              lo |-> Pick(<< <<0,0,-1>>, <<1,0,-2>>, <<0,1,-3>>, <<-1,1,-3>>, <<2,-1,-5>> >>, D[o+5]),
              hi |-> Pick(<< <<0,0,1>>, <<1,0,2>>, <<0,-1,3>>, <<-1,1,3>>, <<2,-1,5>> >>, D[o+6])]
      [] k = "ellipsoid" -> LET z == Pick(<< <<-9,9>>, <<-1,9>>, <<-9,1>>, <<-1,1>>, <<0,9>>, <<1,9>>, <<-9,0>> >>, D[o+3]) IN
             [k |-> k, n |-> << Pick(<<2,3,4,6>>, D[o]), Pick(<<2,3,4,6>>, D[o+1]), Pick(<<2,3,4,6>>, D[o+2]), z[1], z[2] >>]
      [] k = "eltube" -> [k |-> k, n |-> << Pick(<<2,3,4,6>>, D[o]), Pick(<<2,3,4,6>>, D[o+1]), Pick(<<1,3,5>>, D[o+2]) >>]
      [] k = "para" -> [k |-> k, n |-> << Pick(<<2,3,5>>, D[o]), Pick(<<2,3,4>>, D[o+1]), Pick(<<2,3,6>>, D[o+2]) >>,
                        t |-> << (D[o+3] % 5) - 2, (D[o+4] % 5) - 2, (D[o+5] % 5) - 2 >>]
      [] k = "trd" -> [k |-> k, n |-> << Pick(<<0,1,2,4,6>>, D[o]), Pick(<<1,2,4,5>>, D[o+1]), Pick(<<1,2,3,6>>, D[o+2]), Pick(<<0,1,3,5>>, D[o+3]), Pick(<<2,4,6>>, D[o+4]) >>]
      [] k = "trap" -> LET dy1 == Pick(<<2,3,4>>, D[o+1])  dx1 == Pick(<<2,3,4>>, D[o+2])  dx3 == Pick(<<2,3,5>>, D[o+3])  e == (D[o+4] % 3) - 1 IN
             [k |-> k, n |-> IF D[o+5] % 2 = 0 THEN << Pick(<<2,4,6>>, D[o]), dy1, dx1, dx1 + e, dy1, dx3, dx3 + e >>
                             ELSE << Pick(<<2,4,6>>, D[o]), dy1, dx1, dx1, Pick(<<1,2,5>>, D[o+4]), dx3, dx3 >>,
              t |-> << (D[o+6] % 3) - 1, (D[o+7] % 3) - 1, ((D[o+7] \div 3) % 3) - 1 >>]
      [] k = "torus" -> LET r == Pick(<<1,2,3>>, D[o+1]) IN [k |-> k, n |-> << Pick(<<4,5,6>>, D[o]), r, Inner(r, D[o+4]) >>, w |-> Wd(D[o+2], D[o+3])]
      [] k \in {"polycone", "polyhedra"} ->
             LET zs == Zs(D[o])  os == [j \in 1..Len(zs) |-> Pick(<<2,3,4,6,8>>, D[o+3+j])]
             IN  [k |-> k, zs |-> zs, os |-> os, is |-> [j \in 1..Len(zs) |-> Inner(os[j], D[o+3+j] \div 5)],
                  w |-> IF k = "polycone" THEN Wd(D[o+2], D[o+3]) ELSE << D[o+2] % 8, Pick(<<8, 8, 6>>, D[o+3]) >>]
      [] k = "genpoly" ->
             LET g == Pick(<< << <<0,4,4,0>>, <<-3,-3,3,3>> >>, << <<2,5,5,2>>, <<-4,-4,4,4>> >>, << <<1,6,3>>, <<-3,-3,4>> >>,
                              << <<0,6,2,2,5,0>>, <<-5,-5,-2,1,4,4>> >>, << <<3,3,6,6>>, <<4,-4,-4,2>> >>, << <<0,5,0>>, <<-4,0,5>> >>,
                              << <<2,6,6,4,6,6,2>>, <<-5,-5,-1,0,1,5,5>> >> >>, D[o])
             IN  [k |-> k, os |-> g[1], zs |-> g[2], w |-> Wd(D[o+2], D[o+3])]
      [] k = "extr" -> [k |-> k, V |-> Pick(<< << <<-3,-2>>, <<3,-2>>, <<3,2>>, <<-3,2>> >>, << <<-3,-2>>, <<-1,3>>, <<4,-1>> >>, << <<4,0>>, <<1,3>>, <<-3,2>>, <<-3,-3>>, <<2,-3>> >>,
                                               << <<0,0>>, <<5,0>>, <<5,4>>, <<0,4>> >> >>, D[o]),
                        S |-> Pick(<< << <<-4,2,0,0>>, <<4,2,0,0>> >>, << <<-4,2,0,0>>, <<3,1,1,-1>> >>, << <<-5,1,0,0>>, <<-1,3,0,0>>, <<4,2,0,0>> >>,
                                      << <<-4,2,1,1>>, <<0,2,-1,1>>, <<2,2,-1,0>>, <<6,1,0,0>> >>, << <<-2,4,0,0>>, <<2,2,2,0>> >> >>, D[o+1])]
      [] k \in {"meshbox", "meshell"} -> [k |-> k, n |-> << Pick(<<2,3,4>>, D[o]), Pick(<<2,3,5>>, D[o+1]), Pick(<<2,4,6>>, D[o+2]) >>]
      [] k = "meshoct" -> [k |-> k, n |-> << Pick(<<3,4,6>>, D[o]) >>]
Prims == << "box", "sphere", "cylinder", "cone", "cuttube", "ellipsoid", "eltube", "para", "trd", "trap", "torus", "polycone", "polyhedra", "genpoly", "extr", "meshbox", "meshell", "meshoct" >>
CubeQ == << <<1,0,0,0>>, <<1,0,0,0>>, <<1,1,0,0>>, <<1,0,1,0>>, <<1,0,0,1>>, <<0,1,0,0>>, <<1,1,1,1>>, <<1,-1,0,0>>, <<0,1,1,0>>, <<1,-1,1,1>>, <<1,0,0,-1>> >>
Child(D, o) == [s |-> Prim(Pick(Prims, D[o+8]), D, o), t |-> << (D[o+9] % 7) - 3, (D[o+10] % 7) - 3, (D[o+11] % 7) - 3 >>, q |-> Pick(CubeQ, D[o+12])]
Solid(D) == IF Pick(Kinds, D[1]) = "bool"
            THEN [k |-> "bool", op |-> Pick(<<"union", "intersection", "subtraction">>, D[2]), a |-> Child(D, 3), b |-> Child(D, 16)]
            ELSE Prim(Pick(Kinds, D[1]), D, 3)
(* the same solid with one parameter changed *)
Bump(s, j) == [s EXCEPT ![((j % Len(s)) + 1)] = @ + 1]
Other(s, a) ==
    CASE s.k = "bool" -> (CASE a % 3 = 0 -> [s EXCEPT !.op = IF s.op = "union" THEN "subtraction" ELSE "union"]
                            [] a % 3 = 1 -> [s EXCEPT !.a.t = Bump(@, a)] [] OTHER -> [s EXCEPT !.b.t = Bump(@, a)])
      [] s.k \in {"polycone", "polyhedra"} -> [s EXCEPT !.os = Bump(@, a)]
      [] s.k = "genpoly" -> [s EXCEPT !.os = Bump(@, a)]
      [] s.k = "extr" -> (IF a % 2 = 0 THEN [s EXCEPT !.V[1][1] = @ - 1] ELSE [s EXCEPT !.S[1][1 + (a % 4)] = @ - 1 ])
      [] s.k \in {"sphere", "cylinder", "cone", "torus", "cuttube"} /\ a % 3 = 0 -> [s EXCEPT !.w = << (@[1] + 1) % 8, IF @[2] = 8 THEN 7 ELSE @[2] >>]
      [] s.k = "ellipsoid" -> [s EXCEPT !.n[1 + (a % 3)] = @ + 1]
      [] OTHER -> [s EXCEPT !.n = Bump(@, a)]
QI(D, o) == LET q == << (D[o] % 5) - 2, (D[o+1] % 5) - 2, (D[o+2] % 5) - 2, (D[o+3] % 5) - 2 >> IN IF q = <<0,0,0,0>> \/ D[o] % 4 = 0 THEN <<1,0,0,0>> ELSE q
DI(D, o) == LET d == << (D[o] % 7) - 3, (D[o+1] % 7) - 3, (D[o+2] % 7) - 3 >> IN IF d = <<0,0,0>> THEN <<0,0,1>> ELSE d
Case(D) == LET s == Solid(D) IN
    [s |-> s, o |-> Other(s, D[29]), f |-> 4, Q |-> QI(D, 30), T |-> << (D[34] % 41) - 20, (D[35] % 9) - 4, Pick(<<0, 0, 0, 7, -30, 1000>>, D[36]) >>,
     q |-> << (D[37] % 25) - 12, (D[38] % 25) - 12, (D[39] % 25) - 12 >>, d |-> DI(D, 40), m |-> Pick(<<-9, -3, -1, 0, 1, 5, 2000>>, D[43])]
ND == 43

Init == i = 0 /\ c = <<>>
Step == /\ i < N
        /\ i' = i + 1 /\ c' = [j \in 1..ND |-> RandomElement(0..60059)]
        /\ PrintT(<<"EMIT", ToJson(Case(c'))>>)
Next == Step

(* ---- laws between the descriptions --------------------------------------------- *)
Pts == {<<x, y, z>> : x, y, z \in {j \in -Grid..Grid : TRUE}}
F == 1
S(r) == r
Sphere(r, i0, w, th) == [k |-> "sphere", n |-> <<r, i0>>, w |-> w, th |-> th]
Cyl(r, i0, z, w) == [k |-> "cylinder", n |-> <<r, i0, z>>, w |-> w]
Flat == <<0, 0, 1>>
Same(a, b) == \A p \in Pts : LET u == In(a, F, p)  v == In(b, F, p) IN u = v \/ u * v = 0
Ws == {<<a, n>> : a \in 0..7, n \in {1, 4, 6, 8}}
LawRound == \A w \in Ws : \A r \in {4} : \A h \in {0, 2} :
    /\ Same(Cyl(r, h, 4, w), [k |-> "cone", n |-> <<h, r, h, r, 4>>, w |-> w])
    /\ Same(Cyl(r, h, 4, w), [k |-> "polycone", zs |-> <<2, 1, -2>>, os |-> <<r, r, r>>, is |-> <<h, h, h>>, w |-> w])
    /\ Same(Cyl(r, h, 4, w), [k |-> "genpoly", os |-> <<h, r, r, h>>, zs |-> <<-2, -2, 2, 2>>, w |-> w])
    /\ Same(Cyl(r, h, 4, w), [k |-> "cuttube", n |-> <<h, r, 2>>, lo |-> <<0, 0, -1>>, hi |-> Flat, w |-> w])
LawFlat == \A a \in {2, 3} : \A b \in {2, 4} : \A h \in {1, 3} :
    LET B == [k |-> "box", n |-> <<2 * a, 2 * b, 2 * h>>] IN
    /\ Same(B, [k |-> "para", n |-> <<a, b, h>>, t |-> <<0, 0, 0>>])
    /\ Same(B, [k |-> "trd", n |-> <<a, a, b, b, h>>])
    /\ Same(B, [k |-> "trap", n |-> <<h, b, a, a, b, a, a>>, t |-> <<0, 0, 0>>])
    /\ Same(B, [k |-> "extr", V |-> << <<-a, -b>>, <<a, -b>>, <<a, b>>, <<-a, b>> >>, S |-> << <<-h, 2, 0, 0>>, <<0, 2, 0, 0>>, <<h, 2, 0, 0>> >>])
    /\ (a = b => Same(B, [k |-> "polyhedra", zs |-> <<-h, h>>, os |-> <<a, a>>, is |-> <<0, 0>>, w |-> <<1, 8>>]))
    /\ Same([k |-> "bool", op |-> "union", a |-> [s |-> B, t |-> <<a, b, h>>, q |-> <<1,0,0,0>>], b |-> [s |-> B, t |-> <<a, b, h>>, q |-> <<1,0,0,0>>]], [k |-> "meshbox", n |-> <<2*a, 2*b, 2*h>>])
    /\ Same([k |-> "para", n |-> <<a, b, h>>, t |-> <<1, 2, -1>>], [k |-> "trap", n |-> <<h, b, a, a, b, a, a>>, t |-> <<1, 2, -1>>])
    /\ Same([k |-> "trd", n |-> <<a, b, b, a, h>>], [k |-> "trap", n |-> <<h, b, a, a, a, b, b>>, t |-> <<0, 0, 0>>])
LawSphere == /\ \A r \in {2, 4} : Same(Sphere(r, 0, Full, <<0, 4>>), [k |-> "ellipsoid", n |-> <<r, r, r, -9, 9>>])
             /\ Same(Sphere(4, 0, Full, <<0, 2>>), [k |-> "ellipsoid", n |-> <<4, 4, 4, 0, 9>>])
             \* a sphere's polar bands and wedges tile it
             /\ \A p \in Pts : LET whole == In(Sphere(4, 2, Full, <<0, 4>>), F, p)
                                   part(w, th) == In(Sphere(4, 2, w, th), F, p)
                                   all == OrS(<<part(<<1, 3>>, <<0, 1>>), part(<<1, 3>>, <<1, 3>>), part(<<4, 5>>, <<0, 3>>), part(<<4, 5>>, <<3, 1>>)>>)
                               IN  whole = all \/ whole * all = 0
LawTurn == \* turning a solid by an eighth or a quarter: a wedge turned is the wedge of the turned start; Rot is a rotation
    /\ \A w \in Ws : Same([k |-> "bool", op |-> "intersection", a |-> [s |-> Cyl(4, 2, 4, w), t |-> <<0,0,0>>, q |-> <<1,0,0,1>>], b |-> [s |-> Cyl(6, 0, 8, Full), t |-> <<0,0,0>>, q |-> <<1,0,0,0>>]],
                          Cyl(4, 2, 4, <<(w[1] + 2) % 8, w[2]>>))
    /\ \A q \in {CubeQ[j] : j \in 1..Len(CubeQ)} : \A p \in Pts : Rot(q, Rot(Conj(q), p)) = p
LawTorus == \A p \in Pts : LET t == [k |-> "torus", n |-> <<3, 2, 0>>, w |-> Full] IN
    /\ In(t, F, p) = In(t, F, <<p[2], p[1], -p[3]>>) /\ In(t, F, p) = In(t, F, <<-p[1], p[2], p[3]>>)
    /\ (p[3] = 0 /\ In(t, F, p) # 0 => (In(t, F, p) = 1) = (LET r == (p[1]*p[1]) + (p[2]*p[2]) IN r > F*F /\ r < 25*F*F))
Laws == LawRound /\ LawFlat /\ LawSphere /\ LawTurn /\ LawTorus
===============================================================================
