------------------------------- MODULE Sample -------------------------------
(* Audio samples: frames 0..len-1 of some channels, a region [start, stop)    *)
(* and a position. Frames carry distinct values, see Value.                   *)
EXTENDS Integers, Sequences
\* 16 bit value of channel c of frame i; never zero
Value(i, c) == LET v == (((3 * i + c) * 7919) % 65521) - 32760 IN IF v <= 0 THEN v - 1 ELSE v
New(len, loop) == [len |-> len, start |-> 0, stop |-> len, pos |-> 0, loop |-> loop]
Valid(s, start, stop) == 0 <= start /\ start < stop /\ stop <= s.len
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Trim(s, start, stop) == [s EXCEPT !.start = start, !.stop = stop, !.pos = Clip(@, start, stop)]
Rewind(s) == [s EXCEPT !.pos = s.start]
Period(s) == s.stop - s.start
Wrap(s, pos) == s.start + ((pos - s.start) % Period(s))
\* frames delivered by a read of n frames, and the state after it
Frames(s, n) == IF s.loop THEN [i \in 1..n |-> Wrap(s, s.pos + i - 1)]
                ELSE [i \in 1..(Clip(s.pos + n, s.pos, s.stop) - s.pos) |-> s.pos + i - 1]
Read(s, n) == [s EXCEPT !.pos = IF s.loop THEN Wrap(s, s.pos + n) ELSE Clip(s.pos + n, s.pos, s.stop)]
Playing(s) == s.pos < s.stop
\* positions at the end and at the start of a loop are the same
SamePos(s, pos) == pos = s.pos \/ (s.loop /\ {pos, s.pos} = {s.start, s.stop})

(* What the resampler makes of n frames, p/q source frames per output frame.  *)
(* The linear mode interpolates between frames, one frame late (twice the 16  *)
(* bit value).                                                                *)
Total(n, p, q) == (n * q) \div p
Crude(mode) == mode \in {"crude", "very_crude"}
Out(mode, p, q, k, V(_)) ==
    IF Crude(mode) THEN 2 * V((k * p) \div q)
    ELSE LET x == IF k * p < q THEN 0 ELSE k * p - q IN     \* in units of 1/q frames
         IF x % q = 0 THEN 2 * V(x \div q)
         ELSE LET i == x \div q IN (2 * V(i) * (q - (x % q)) + 2 * V(i + 1) * (x % q)) \div q

(* The crude modes take p/q source frames per frame read (fewer at the end)   *)
(* and spread them evenly over the frames read, each read by itself.          *)
Taken(n, p, q) == (n * p) \div q
Given(n, need, got, p) == IF got = 0 THEN {0} ELSE
    {(n * got) \div need} \cup
    \* a ratio which is no floating point number, hit exactly
    (IF got < need /\ p \notin {1, 2, 4} /\ (n * got) % need = 0 THEN {(n * got) \div need - 1} ELSE {})
\* steps which floating point numbers hit exactly
ExactStep(got, m) == got % m = 0 \/ m \in {2 * got, 4 * got}
\* values which frame k of m made of frames fs may have
Spread(mode, fs, m, k, V(_)) ==
    LET j == (k * Len(fs)) \div m
        r == (k * Len(fs)) % m
        after == IF j + 2 <= Len(fs) THEN j + 2 ELSE j + 1
    IN IF mode = "very_crude"
       THEN {2 * V(fs[j + 1])} \cup (IF r = 0 /\ k > 0 /\ ~ExactStep(Len(fs), m) THEN {2 * V(fs[j])} ELSE {})
       ELSE {(2 * V(fs[j + 1]) * (m - r) + 2 * V(fs[after]) * r) \div m}
=============================================================================
