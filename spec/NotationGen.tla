----------------------------- MODULE NotationGen ------------------------------
(* All short melodies over a palette of values (in 96ths; 0 and 1: tuplets).   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
GInit == hist = <<>>
GNext == Len(hist) < MaxLen /\ \E v \in {0, 1, 6, 9, 12, 18, 24, 36, 48, 72, 96} : hist' = Append(hist, v)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist') = MaxLen => PrintT("SCN " \o ToJson(hist'))
=============================================================================
