------------------------------ MODULE LawRules -------------------------------
(* The angular laws are laws: whatever the asymmetry, the shares of the bins    *)
(* are not negative and add up, the density at the middle of a bin is its share, *)
(* and reversing the helicity mirrors them.                                      *)
EXTENDS Channels
VARIABLE a
Sum8(f(_)) == f(1) + f(2) + f(3) + f(4) + f(5) + f(6) + f(7) + f(8)
Init == a \in -10000 .. 10000
Next == FALSE /\ UNCHANGED a
Within(x, y, d) == x - y <= d /\ y - x <= d
Rules == LET S(k) == ShareCos(a, k) IN
    /\ \A k \in 1 .. 8 : S(k) >= 0 /\ Within(S(k), ShareCos(-a, 9 - k), 1)
    /\ Within(Sum8(S), 10000, 8)
    /\ \A k \in 1 .. 8 : Within(4 * S(k), DensCos(a, 1250 * (2 * k - 9)), 5)
=============================================================================
