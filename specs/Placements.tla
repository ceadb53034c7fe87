------------------------------ MODULE Placements ------------------------------
(* A placement puts a body into the world: a position t and a rotation q (an       *)
(* integer quaternion, see Rotation). Local to global: turn, then move; global to   *)
(* local: move back, then turn back. Placements are values with setters.            *)
EXTENDS Rotation
P0 == [t |-> <<0, 0, 0>>, q |-> <<0, 0, 0, 1>>]
\* quaternions in the pool are primitive and describe different orientations as values unless equal
L2G(p, v) == Add(Apply(M(p.q), v), Mul(N(p.q), p.t))                 \* times N(q)
G2L(p, v) == Apply(Transp(M(p.q)), Add(v, Mul(-1, p.t)))            \* times N(q)
DirL2G(p, v) == Apply(M(p.q), v)
DirG2L(p, v) == Apply(Transp(M(p.q)), v)
\* no displacement and no rotation
Identity(p) == p.t = <<0, 0, 0>> /\ V(p.q) = <<0, 0, 0>>
Step(st, o) == CASE o.op = "pos" -> [st EXCEPT ![o.k].t = o.t]
                 [] o.op = "rot" -> [st EXCEPT ![o.k].q = o.q]
                 [] o.op = "make" -> [st EXCEPT ![o.k] = [t |-> o.t, q |-> o.q]]
                 [] o.op = "makepos" -> [st EXCEPT ![o.k] = [t |-> o.t, q |-> <<0, 0, 0, 1>>]]
                 [] o.op = "makerot" -> [st EXCEPT ![o.k] = [t |-> <<0, 0, 0>>, q |-> o.q]]
                 [] o.op = "reset" -> [st EXCEPT ![o.k] = P0]
                 [] o.op \in {"assign", "copy", "create"} -> [st EXCEPT ![o.k] = st[3 - o.k]]
                 [] o.op = "move" -> [st EXCEPT ![o.k] = st[3 - o.k], ![3 - o.k] = P0]     \* the driver resets what was moved from
                 [] o.op = "swap" -> [st EXCEPT ![o.k] = st[3 - o.k], ![3 - o.k] = st[o.k]]
                 [] o.op \in {"binary", "json"} -> st
=============================================================================
