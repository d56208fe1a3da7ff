-------------------------------- MODULE Poly --------------------------------
(* The polyphonic synthesizer: K voices in rotation. A voice holds the note   *)
(* it plays, or None once gated off.                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
None == [p |-> -1, v |-> 0, f |-> 0]
PInit(k) == [voices |-> [i \in 1..k |-> None], turn |-> 0]
Handle(s, n) ==
    LET k == Len(s.voices) IN
    IF n.v > 0 THEN [voices |-> [s.voices EXCEPT ![s.turn + 1] = n], turn |-> (s.turn + 1) % k]
    ELSE [s EXCEPT !.voices = [i \in 1..k |-> IF @[i].p = n.p THEN None ELSE @[i]]]
HandleAll(s, ns) == FoldLeft(Handle, s, ns)
Sounding(s) == {s.voices[i] : i \in {i \in DOMAIN s.voices : s.voices[i] # None}}
Level(s) == FoldLeft(LAMBDA a, n : a + n.v, 0, s.voices)
=============================================================================
