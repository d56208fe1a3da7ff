------------------------------- MODULE MonoGen -------------------------------
(* All short sequences of key events; the same for both synthesizers.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Pitches, Depth
VARIABLES hist
GInit == hist = <<>>
GNext == Len(hist) < Depth /\ \E p \in Pitches, on \in {0, 1} : hist' = Append(hist, [p |-> p, on |-> on])
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist') = Depth => PrintT("SCN " \o ToJson([keys |-> hist']))
=============================================================================
