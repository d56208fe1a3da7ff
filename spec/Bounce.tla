------------------------------- MODULE Bounce -------------------------------
(* A run of the audio engine: buffers of B frames, the last D frames long     *)
(* (duration), faded out over the last F frames before the end.               *)
EXTENDS Integers, Sequences
\* buffers of an offline bounce: as many whole ones as fit; of a live run: until the duration is over
Buffers(D, B, live) == IF live THEN -((-D) \div B) ELSE D \div B
\* gain of frame t is Gain/GainUnit
GainUnit(F) == IF F > 0 THEN F ELSE 1
Gain(t, D, F) == IF F <= 0 THEN 1 ELSE IF t <= D - F THEN F ELSE IF t >= D THEN 0 ELSE D - t
=============================================================================
