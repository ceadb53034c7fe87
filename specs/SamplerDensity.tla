---------------------------- MODULE SamplerDensity ----------------------------
(* The laws of the primary distributions: for every configuration, the share of *)
(* the events that falls in each bin (Mass, in units of 1/10000), the density at *)
(* given points, and where the density vanishes. The shares are exact: the bins  *)
(* are chosen such that they are rational.                                       *)
(*   power   density ~ E^-g on [r1^2, rn^2], with h = 2 - 2g; bins between squares *)
(*   iso     all directions;  cone: directions within an angle of an axis          *)
(*   pidar   muon decay spectrum of the electron neutrino: x = 2E/m, 12x^2(1-x)     *)
(*   flux    piecewise linear table, optionally restricted to a range               *)
(*   flux2   bilinear table of energy and cosine of the zenith angle                *)
(*   flux2l  table with a logarithmic energy axis that tabulates E^s                *)
(*   fluxl   one dimensional table with a logarithmic energy axis that tabulates 1/E     *)
(*   expo    the exponential part of the Moyal-plus-exponential law, halved per bin *)
(*   moyal   the whole law, in bins of a tenth each                                 *)
EXTENDS TableInterp
BP == 10000
Frac(n, d) == LET w == n \div d IN w * BP + (((n % d) * BP) \div d)
P(h, r) == IF h >= 0 THEN r ^ h ELSE (12 \div r) ^ (-h)
AbsD(a, b) == AbsI(a - b)
PowerMass(c) == LET n == Len(c.r) IN
    [k \in 1 .. n - 1 |-> IF c.h = 0 THEN BP \div (n - 1) ELSE Frac(AbsD(P(c.h, c.r[k+1]), P(c.h, c.r[k])), AbsD(P(c.h, c.r[n]), P(c.h, c.r[1])))]
\* E * density at E = r^2, times 10^4  (for h = 0 the ratio of the bounds is 4^m: 1/(m ln 4) = 7213/m)
PowerDens(c, r) == LET n == Len(c.r) IN
    IF c.h = 0 THEN 7213 \div (n - 1)
    ELSE Frac(AbsI(c.h) * P(c.h, r), 2 * AbsD(P(c.h, c.r[n]), P(c.h, c.r[1])))
Equal(n) == [k \in 1 .. n |-> BP \div n]
PidarCum(k) == 40 * k * k * k - 3 * k * k * k * k
PidarMass == [k \in 1 .. 10 |-> PidarCum(k) - PidarCum(k - 1)]
\* ---- tables -----------------------------------------------------------------------------
FluxAxis(c) == [p |-> FALSE, a |-> c.x]
\* bin borders, in quarters: the ends of the range and the nodes inside it
RECURSIVE Borders(_, _)
Borders(c, k) == IF k > Len(c.x) THEN <<c.hi>>
                 ELSE (IF 4 * c.x[k] > c.lo /\ 4 * c.x[k] < c.hi THEN <<4 * c.x[k]>> ELSE <<>>) \o Borders(c, k + 1)
FluxBorders(c) == <<c.lo>> \o Borders(c, 1)
FluxInt(c) == Trapezoid(c.x, c.f, c.lo, c.hi)          \* in units of 1/128
FluxMass(c) == LET b == FluxBorders(c) IN [k \in 1 .. Len(b) - 1 |-> Frac(Trapezoid(c.x, c.f, b[k], b[k+1]), FluxInt(c))]
\* density at q/4, times 10^4
FluxDens(c, q) == LET v == Interp1(FluxAxis(c), c.f, q) IN Frac(128 * v[2], v[3] * FluxInt(c))
\* bilinear cells, evenly spaced nodes; the bins run over the cells, cosine first
CellSum(c, i, j) == (c.x[i+1] - c.x[i]) * (c.f[i][j] + c.f[i+1][j] + c.f[i][j+1] + c.f[i+1][j+1])
Flux2Int(c) == LET n == Len(c.x) - 1 g[k \in 0 .. 2 * n] == IF k = 0 THEN 0 ELSE g[k-1] + CellSum(c, ((k - 1) \div 2) + 1, ((k - 1) % 2) + 1) IN g[2 * n]
Flux2Mass(c) == LET n == Len(c.x) - 1 IN [k \in 1 .. 2 * n |-> Frac(CellSum(c, ((k - 1) \div 2) + 1, ((k - 1) % 2) + 1), Flux2Int(c))]
\* density at (qx/4, qy/4), times 10^4: cell area 1 in cosine; Flux2Int counts four times the integral
Flux2Dens(c, qx, qy) == LET v == CHOOSE w \in Interp2([p |-> FALSE, a |-> c.x], [p |-> FALSE, a |-> <<-1, 0, 1>>], c.f, qx, qy) : TRUE
                        IN Frac(4 * v[2], v[3] * Flux2Int(c))
\* tabulated power of the energy on nodes 1, 2, 4, .. : integral of E^s over an octave [2^k, 2^(k+1)] (s # -1), or equal shares
OctMass(s, k, n) == IF s = -1 THEN <<1, n>>
                    ELSE IF s >= 0 THEN <<(2 ^ ((s + 1) * k)) - (2 ^ ((s + 1) * (k - 1))), (2 ^ ((s + 1) * n)) - 1>>
                    ELSE <<2 ^ (n - k), (2 ^ n) - 1>>                      \* s = -2: 1/2^(k-1) - 1/2^k
Flux2lMass(c) == [k \in 1 .. 2 * c.n |-> LET m == OctMass(c.s, ((k - 1) \div 2) + 1, c.n) IN Frac(m[1], 2 * m[2])]
ExpoMass(n) == [k \in 1 .. n |-> Frac(2 ^ (n - k), (2 ^ n) - 1)]
Mass(c) == CASE c.t = "power" -> PowerMass(c)
             [] c.t = "iso" -> Equal(40)
             [] c.t = "cone" -> Equal(40)
             [] c.t = "pidar" -> PidarMass
             [] c.t = "flux" -> FluxMass(c)
             [] c.t = "flux2" -> Flux2Mass(c)
             [] c.t = "flux2l" -> Flux2lMass(c)
             [] c.t = "fluxl" -> Equal(2 * c.n)        \* 1/E in half octaves
             [] c.t = "expo" -> ExpoMass(c.n)
             [] c.t = "moyal" -> Equal(10)
\* an observed count of N draws is compatible with a share of m/10000: six standard deviations, times the factor k in variance
Compatible(cnt, tot, m, k) == LET e == ((tot \div 100) * m) \div 100
                                d == AbsI(cnt - e) - (tot \div BP) - 3
                            IN d <= 0 \/ (d <= 40000 /\ d * d <= 36 * k * e + 100)
=============================================================================
