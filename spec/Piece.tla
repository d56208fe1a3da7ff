-------------------------------- MODULE Piece --------------------------------
(* A whole piece: sequenced channels, over note limiters into synthesizers    *)
(* (24 voices in rotation, or one voice for the highest or lowest held note), *)
(* gains and echoes by whole buffers into the channels of the sound card. A   *)
(* voice sounds a constant of its own for every pitch, so that a buffer tells *)
(* what sounds in it.                                                         *)
EXTENDS Sequencer, FiniteSets
Voices == 24
Weight(p) == IF p = 0 THEN 0 ELSE <<1, 3, 7, 12, 20>>[p - 59]
NoteLength(c, rate) == IF c.abs > 0 THEN Ceil(c.abs, 2) ELSE Ceil(c.rel[1] * rate[2], c.rel[2] * rate[1])

Synth(kind, max) == [kind |-> kind, max |-> max, kept |-> <<>>, voices |-> [i \in 1..Voices |-> 0], next |-> 0, held |-> <<>>]
(* Messages [p, v] past a limiter: it keeps the notes it has started and ends *)
(* the oldest ones itself.                                                    *)
LimitOne(acc, m) ==
    IF m.v = 0 THEN acc
    ELSE LET all == Append(acc.kept, m.p)
             n == IF Len(all) > acc.max THEN Len(all) - acc.max ELSE 0
         IN [acc EXCEPT !.kept = SubSeq(all, n + 1, Len(all)),
                        !.out = @ \o [i \in 1..n |-> [p |-> all[i], v |-> 0]] \o <<m>>]
Limited(s, ms) == IF s.max = 0 THEN [kept |-> <<>>, out |-> ms]
                  ELSE LET r == FoldLeft(LimitOne, [max |-> s.max, kept |-> s.kept, out |-> <<>>], ms) IN [kept |-> r.kept, out |-> r.out]
Without(held, p) == IF \E i \in DOMAIN held : held[i] = p
                    THEN LET i == CHOOSE i \in DOMAIN held : held[i] = p IN SubSeq(held, 1, i - 1) \o SubSeq(held, i + 1, Len(held))
                    ELSE held
KeyOne(s, m) ==
    IF s.kind = "poly"
    THEN IF m.v > 0 THEN [s EXCEPT !.voices[(s.next % Voices) + 1] = m.p, !.next = (@ + 1) % Voices]
         ELSE [s EXCEPT !.voices = [i \in 1..Voices |-> IF s.voices[i] = m.p THEN 0 ELSE s.voices[i]]]
    ELSE [s EXCEPT !.held = IF m.v > 0 THEN Append(@, m.p) ELSE Without(@, m.p)]
Play(s, ms) == LET r == Limited(s, ms) IN FoldLeft(KeyOne, [s EXCEPT !.kept = r.kept], r.out)
Best(s) == IF s.held = <<>> THEN 0
           ELSE CHOOSE p \in {s.held[i] : i \in DOMAIN s.held} :
                  \A i \in DOMAIN s.held : IF s.kind = "highest" THEN s.held[i] <= p ELSE s.held[i] >= p
(* Loudness in units of 1 / 24                                                *)
Heard(s) == IF s.kind = "poly" THEN FoldLeft(LAMBDA x, p : x + Weight(p), 0, s.voices) ELSE Voices * Weight(Best(s))
Sounding(s) == IF s.kind = "poly" THEN {s.voices[i] : i \in 1..Voices} \ {0} ELSE {Best(s)} \ {0}
(* Half dry, half as many buffers ago; past = values of earlier buffers       *)
Echoed(past, x, m) == IF m = 0 THEN 2 * x ELSE x + (IF Len(past) >= m THEN past[Len(past) - m + 1] ELSE 0)
=============================================================================
