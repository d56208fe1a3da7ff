------------------------------ MODULE Memoryless ------------------------------
(* Effects whose output is a function of the current signal (channels of equal *)
(* length). Values are integers in units given with each of them.              *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Only(S) == CHOOSE x \in S : TRUE
Abs(x) == IF x < 0 THEN -x ELSE x
Map(F(_), xs) == [c \in DOMAIN xs |-> [k \in DOMAIN xs[c] |-> F(xs[c][k])]]
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* gain: one value or one per sample, the same for all channels
Gain(g, xs) == [c \in DOMAIN xs |-> [k \in DOMAIN xs[c] |-> (IF Len(g) = 1 THEN g[1] ELSE g[k]) * xs[c][k]]]
\* every f-th sample, held for f samples
Held(f, xs) == [c \in DOMAIN xs |-> [k \in DOMAIN xs[c] |-> xs[c][k - ((k - 1) % f)]]]
\* the lowest n bits are cleared
Crushed(n, xs) == LET step == Pow2(n) IN Map(LAMBDA x : (x \div step) * step, xs)
\* 2 x^2 - 1, for x in units of 1 / u, in units of 1 / u^2
Octave(u, xs) == Map(LAMBDA x : (2 * x * x) - (u * u), xs)
\* the line through (x0, y0) and (x1, y1), times x1 - x0
Line(p, x) == (p.y0 * (p.x1 - p.x0)) + ((x - p.x0) * (p.y1 - p.y0))
\* linear panning, level in quarters from -4 to 4, result in eighths
Level(v) == IF v < -4 THEN -4 ELSE IF v > 4 THEN 4 ELSE v
Panned(v, xs) == << [k \in DOMAIN xs[1] |-> (4 - Level(v)) * xs[1][k]],
                    [k \in DOMAIN xs[1] |-> (4 + Level(v)) * (IF Len(xs) = 1 THEN xs[1][k] ELSE xs[2][k])] >>
\* panning laws: amplitudes of the left side in units of 1 / P at the levels -6..6
\* (1..13, beyond -4..4 they stay), a law of k half turns down (-3 dB each); the
\* curve of constant power is c, a mixture the mean of it and the linear one
P == 10000
Lin(i) == ((4 - Level(i - 7)) * P) \div 8
Times(a, b) == ((a * b) + (P \div 2)) \div P
RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN P ELSE Times(a, Power(a, n - 1))
RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) == IF hi - lo < 2 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m > x THEN Bisect(x, lo, m) ELSE Bisect(x, m, hi)
Root(x) == Bisect(x, 0, P + 1)
\* sine and cosine: squares add up to one, double angles
ConstantPower(c) == /\ \A i \in 1..13 : Abs(((c[i] * c[i]) + (c[14 - i] * c[14 - i])) - (P * P)) <= 2 * P
                    /\ c[3] = P /\ c[11] = 0
                    /\ \A v \in -4..0 : Abs((c[v + 7] * c[v + 7]) - (c[7 - v] * c[7 - v]) - (P * c[(2 * v) + 4 + 7])) <= 4 * P
Base(mode, c, i) == IF mode = "linear" THEN Lin(i) ELSE IF mode = "constant_power" THEN c[i] ELSE Root(Lin(i) * c[i])
Halves(mode) == IF mode = "linear" THEN 4 ELSE IF mode = "constant_power" THEN 2 ELSE 3
\* amplitude a under the law k (-1: none)
Obeys(mode, c, k, i, a) == IF k < 0 THEN Abs(a - Base(mode, c, i)) <= 1
                           ELSE Abs(Power(a, Halves(mode)) - Power(Base(mode, c, i), k + 2)) <= 5
=============================================================================
