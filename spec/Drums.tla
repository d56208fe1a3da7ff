-------------------------------- MODULE Drums ---------------------------------
(* Percussion: a kick drum begins its sound anew with every hit, a hi hat is   *)
(* noise shaped by an envelope. Time counts in buffers.                        *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
\* a hit: a note-on of a pitch above zero
Hit(note) == note.p > 0 /\ note.v > 0
\* age of the sound in this buffer; -1 before the first hit
Aged(age, notes) == IF \E i \in DOMAIN notes : Hit(notes[i]) THEN 0 ELSE age
Older(age) == IF age < 0 THEN -1 ELSE age + 1
=============================================================================
