------------------------------ MODULE MusicGen --------------------------------
(* Histories of one chord being inverted and one tuning being played.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
GInit == hist = <<>>
GNext == /\ Len(hist) < MaxLen
         /\ \E o \in {"up", "down", "up2", "down2", "far", "stay", "tune", "known", "note", "notes"} : hist' = Append(hist, o)
GSpec == GInit /\ [][GNext]_hist
Emit == (Len(hist') = MaxLen /\ \E i \in DOMAIN hist' : hist'[i] \in {"note", "notes"}) => PrintT("SCN " \o ToJson(hist'))
=============================================================================
