------------------------------- MODULE ReachCases ------------------------------
EXTENDS Reach, TLC, Json
VARIABLE c
Decays == [g : {"decay"}, t : Triples, u : {1, 40}, w : {1, 3, 700}, mu : {0, 1, 2, 7}, mx : {Unlimited, 0, 1, 3, 10, 400}, k : {5914, -5914, 22, 15}]
Chosen == {d \in Decays : d.t # <<3, 0, 3>> \/ d.w = 3}
Range == [k : {"decay"}, m : {3, 4}, w : {1, 2}, mu : {1, 2}, mx : {1, 2, Unlimited}] \cup [k : {"other"}, m : {1, 2}, w : {0}, mu : {0}, mx : {0}]
Depths == [k : {"lepton"}, mu : {<<0, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>}, tau : {<<0, 0>>, <<1, 1>>, <<2, 1>>, <<2, 3>>}, scale : {1, 2}, max : {0, 50}] \cup [k : {"foreign"}, mu : {<<1, 0>>, <<2, 0>>}, tau : {<<0, 0>>}, scale : {1}, max : {0}]
Init == c \in Chosen \cup [g : {"range"}, f : Range] \cup [g : {"depth"}, f : Depths]
Next == PrintT(<<"EMIT", ToJson(c)>>) /\ FALSE /\ UNCHANGED c
Inv == c.g = "decay" => /\ Reached(c.t, c.mu, c.mx, 1000) <= Reached(c.t, c.mu, Unlimited, 1000) /\ (c.mx # Unlimited => Reached(c.t, c.mu, c.mx, 1000) <= c.mx * 1000)
    /\ (c.mu = 1 => Reached(c.t, c.mu, Unlimited, 1000) = Length(c.t, 1000)) /\ (c.t[1] * c.t[1]) + (c.t[2] * c.t[2]) = c.t[3] * c.t[3]
================================================================================
