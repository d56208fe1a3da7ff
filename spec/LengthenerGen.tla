---------------------------- MODULE LengthenerGen ----------------------------
(* Every short history of updates: time passed and notes received.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Steps, Pitches
VARIABLES hist
Notes == {<<>>, <<0>>} \cup {<<p>> : p \in Pitches} \cup {<<p, q>> : p \in Pitches, q \in Pitches}
GInit == hist = <<>>
GNext == Len(hist) < Depth /\ \E d \in Steps, n \in Notes : hist' = Append(hist, [d |-> d, notes |-> n])
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist') = Depth => PrintT("SCN " \o ToJson([h |-> hist']))
=============================================================================
