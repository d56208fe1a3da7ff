------------------------------- MODULE Effects -------------------------------
(* Effects with a memory, one buffer of samples after the other.              *)
(*  - filter: recursive filter of at most second order per channel; the       *)
(*    coefficients depend on the frequency, the memory stays                  *)
(*  - ring modulator: a sine whose frequency is switched by an lfo            *)
(*  - tremolo: a gate opened and closed by an lfo, smoothed by a low pass     *)
(* An lfo has a phase of Turn units.                                          *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANT Turn
Only(S) == CHOOSE x \in S : TRUE
\* coefficients c = [b |-> <<b0, b1, b2>>, a |-> <<a1, a2>>], memory z
Rest == <<0, 0>>
FilterOut(c, z, x) == (c.b[1] * x) + z[1]
FilterMem(c, z, x, y) == <<((c.b[2] * x) + z[2]) - (c.a[1] * y), (c.b[3] * x) - (c.a[2] * y)>>
FilterStep(c, z, x) == Only({[y |-> y, z |-> FilterMem(c, z, x, y)] : y \in {FilterOut(c, z, x)}})
\* a whole signal: [y, z]
Filtered(c, z, xs) == FoldLeft(LAMBDA acc, x : Only({[y |-> Append(acc.y, s.y), z |-> s.z] : s \in {FilterStep(c, acc.z, x)}}),
                               [y |-> <<>>, z |-> z], xs)
\* bands: upper limits of frequencies with their coefficients, in order
Coefficients(bands, f) == Only({bands[i].c : i \in {CHOOSE j \in DOMAIN bands : /\ f <= bands[j].to \/ j = Len(bands)
                                                                               /\ \A k \in 1..(j - 1) : f > bands[k].to}})
\* coefficients are designed for frequencies on a fine scale (within a percent):
\* just below a limit, those of the next band will do, and the other way round
Designed(bands, f) == {Coefficients(bands, (f * k) \div 1000) : k \in {993, 1000, 1007}}

\* phases of n samples starting at p, and of the next one
Ramp(p, f, n, turn) == [k \in 1..(n + 1) |-> (p + (f * (k - 1))) % turn]
Switch(p) == IF 2 * p < Turn THEN 1 ELSE -1
Sine == <<0, 130526, 258819, 382683, 500000, 608761, 707107, 793353, 866025, 923880, 965926, 991445,
          1000000, 991445, 965926, 923880, 866025, 793353, 707107, 608761, 500000, 382683, 258819, 130526>>
\* sine in millionths at q / 48 turns
Sin(q) == IF q < 24 THEN Sine[q + 1] ELSE -Sine[q - 23]
\* modulator phases (48 to the turn), frequencies switched sample by sample
ModPhases(q, f, amount, lfo, n) ==
    FoldLeft(LAMBDA acc, k : Append(acc, (acc[Len(acc)] + f + (amount * Switch(lfo[k]))) % 48), <<q>>, [k \in 1..n |-> k])

Full == 1048576
Pulse(p, duty) == IF p < duty THEN Full ELSE -Full
\* smoothing by a = <<num, den>> with memory z
Smooth(a, z, ps) == FoldLeft(LAMBDA acc, x : Only({[y |-> Append(acc.y, y), z |-> (y * a[1]) \div a[2]]
                                                   : y \in {(((a[2] - a[1]) * (x \div a[2])) + acc.z)}}),
                             [y |-> <<>>, z |-> z], ps)
\* envelope in units of 1 / (8 * Full), depth in quarters
Envelope(y, depth) == ((8 - (2 * depth)) * Full) + (depth * (Full + y))
=============================================================================
