--------------------------- MODULE PlacementsDesign ---------------------------
EXTENDS Placements, TLC, Json
CONSTANTS MaxOps, EmitAt
VARIABLES st, hist
Ts == {<<0, 0, 0>>, <<1, -2, 3>>, <<0, 0, 5>>, <<1, -2, 4>>}
Rs == {<<0, 0, 0, 1>>, <<0, 0, 0, -1>>, <<0, 0, 1, 1>>, <<1, 2, 2, 4>>, <<1, 0, 0, 0>>, <<-1, 1, 1, 1>>, <<0, 0, 0, 3>>, <<0, 0, 1, 50>>}
O(op, k, t, q) == [op |-> op, k |-> k, t |-> t, q |-> q]
Z == <<0, 0, 0>>
U == <<0, 0, 0, 1>>
Ops == UNION { {O("pos", k, t, U) : t \in Ts} \cup {O("rot", k, Z, q) : q \in Rs} \cup {O("make", k, t, q) : t \in Ts, q \in Rs} \cup {O("makepos", k, t, U) : t \in Ts} \cup {O("makerot", k, Z, q) : q \in Rs}
              \cup {O(x, k, Z, U) : x \in {"reset", "assign", "copy", "create", "move", "swap", "binary", "json"}} : k \in 1 .. 2 }
Init == st = <<P0, P0>> /\ hist = <<>>
Next == \E o \in Ops : /\ Len(hist) < MaxOps
                       /\ st' = Step(st, o) /\ hist' = Append(hist, o)
                       /\ (IF Len(hist') = EmitAt THEN PrintT(<<"EMIT", ToJson(hist')>>) ELSE TRUE)
\* going there and back again is going nowhere, lengths are kept
Rigid == \A k \in 1 .. 2 : LET p == st[k] n == N(p.q) IN \A v \in {<<1, 2, 3>>, <<0, -1, 4>>} :
            /\ Apply(Transp(M(p.q)), Add(L2G(p, v), Mul(-n, p.t))) = Mul(n * n, v)
            /\ Dot(DirL2G(p, v), DirL2G(p, v)) = n * n * Dot(v, v)
            /\ Identity(p) => L2G(p, v) = Mul(n, v)
=============================================================================
