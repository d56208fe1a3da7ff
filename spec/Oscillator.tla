------------------------------ MODULE Oscillator ------------------------------
(* Phase of oscillators. One turn is U units; a frequency is given in units   *)
(* per sample, N samples per buffer, either one for the buffer or one for     *)
(* each sample.                                                               *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS U, N
At(f, k) == IF Len(f) = 1 THEN f[1] ELSE f[k]
\* phases of the samples of a buffer and of the first one after it
Phases(p, f) ==
    IF Len(f) = 1 THEN [k \in 1..(N + 1) |-> (p + f[1] * (k - 1)) % U]
    ELSE FoldLeft(LAMBDA acc, x : Append(acc, (acc[Len(acc)] + x) % U), <<p>>, f)
After(p, f) == Phases(p, f)[N + 1]
\* a scalar phase source
Stepped(p, f) == (p + N * f[1]) % U
\* wave forms, exactly on the edge of a jump the value is free
Square(p, duty) == IF p = 0 \/ p = duty THEN {-1, 1} ELSE IF p < duty THEN {1} ELSE {-1}
Abs(x) == IF x < 0 THEN -x ELSE x
Wrapped(p) == IF p < U \div 2 THEN p ELSE p - U
Triangle(p) == U - Abs(((4 * Wrapped(p)) % (4 * U)) - (2 * U))
=============================================================================
