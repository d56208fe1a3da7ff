---------------------------- MODULE EffectsDesign ----------------------------
(* Filters, gates and modulators run on any input and any settings, changed    *)
(* between buffers of B samples.                                               *)
EXTENDS Effects
CONSTANTS B, MaxBuffers
Values == {0, 1, -2}
VARIABLES z, c, xs, ys, changed, gate
dvars == <<z, c, xs, ys, changed, gate>>
Sets == { [b |-> <<1, 0, 0>>, a |-> <<0, 0>>], [b |-> <<1, 2, 1>>, a |-> <<0, 0>>], [b |-> <<1, 0, 0>>, a |-> <<-1, 0>>],
          [b |-> <<1, -1, 0>>, a |-> <<1, 0>>], [b |-> <<2, 0, 1>>, a |-> <<0, -1>>], [b |-> <<0, 1, 1>>, a |-> <<-1, 1>>] }
\* a gate: phase, rate, duty, smoothing, depth, memory, envelope so far
Gates == [p : {0}, r : {1, 3}, duty : {3, 5}, a : {<<0, 1>>, <<1, 2>>, <<3, 4>>}, depth : {0, 2, 4}, z : {0}, env : {<<>>}]
DInit == z = Rest /\ c \in Sets /\ xs = <<>> /\ ys = <<>> /\ changed = 0 /\ gate \in Gates
Run == /\ Len(xs) < B * MaxBuffers
       /\ \E buf \in [1..B -> Values] :
          \E f \in {Filtered(c, z, buf)}, ps \in {Ramp(gate.p, gate.r, B, Turn)} :
          \E s \in {Smooth(gate.a, gate.z, [k \in 1..B |-> Pulse(ps[k], gate.duty)])} :
          /\ xs' = xs \o buf /\ ys' = ys \o f.y /\ z' = f.z
          /\ gate' = [gate EXCEPT !.p = ps[B + 1], !.z = s.z, !.env = @ \o [k \in 1..B |-> Envelope(s.y[k], gate.depth)]]
       /\ UNCHANGED <<c, changed>>
Change == changed = 0 /\ Len(xs) > 0 /\ c' \in Sets \ {c} /\ changed' = Len(xs) /\ UNCHANGED <<z, xs, ys, gate>>
DNext == Run \/ Change
DSpec == DInit /\ [][DNext]_dvars
X(n) == IF n < 1 THEN 0 ELSE xs[n]
Y(n) == IF n < 1 THEN 0 ELSE ys[n]
\* the difference equation over all buffers, as long as the coefficients stay
Equation == changed = 0 => \A n \in DOMAIN ys :
    ys[n] = ((c.b[1] * X(n)) + (c.b[2] * X(n - 1)) + (c.b[3] * X(n - 2))) - ((c.a[1] * Y(n - 1)) + (c.a[2] * Y(n - 2)))
\* one buffer or many: the memory is all there is
OneRun == changed = 0 => Filtered(c, Rest, xs) = [y |-> ys, z |-> z]
\* the envelope stays between closed and open, without depth it does nothing
Within == \A k \in DOMAIN gate.env : gate.env[k] >= (8 - (2 * gate.depth)) * Full /\ gate.env[k] <= 8 * Full
NoDepth == gate.depth = 0 => \A k \in DOMAIN gate.env : gate.env[k] = 8 * Full
\* unsmoothed: open in the active part of each turn, closed in the rest
Sharp == gate.a[1] = 0 => \A k \in DOMAIN gate.env :
            gate.env[k] = IF (gate.r * (k - 1)) % Turn < gate.duty THEN 8 * Full ELSE (8 - (2 * gate.depth)) * Full
\* smoothed: towards open while active, towards closed otherwise
Towards == \A k \in 2..Len(gate.env) :
            IF (gate.r * (k - 1)) % Turn < gate.duty THEN gate.env[k] >= gate.env[k - 1] - 4 ELSE gate.env[k] <= gate.env[k - 1] + 4
=============================================================================
