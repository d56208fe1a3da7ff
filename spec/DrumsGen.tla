------------------------------ MODULE DrumsGen --------------------------------
(* Histories of two drums; hits, ends of notes and rests.                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
GInit == hist = <<>>
GNext == /\ Len(hist) < MaxLen
         /\ \E d \in 1..2, o \in {"rest", "on", "off", "onoff", "onon", "zero"} : hist' = Append(hist, [d |-> d, o |-> o])
GSpec == GInit /\ [][GNext]_hist
Emit == (Len(hist') = MaxLen) => PrintT("SCN " \o ToJson(hist'))
=============================================================================
