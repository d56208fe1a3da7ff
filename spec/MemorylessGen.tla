---------------------------- MODULE MemorylessGen -----------------------------
(* Histories of a gain block: own and linked gains, constant or sample by      *)
(* sample, mono and stereo signals.                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist, linked
GInit == hist = <<>> /\ linked = FALSE
GNext == /\ Len(hist) < MaxLen
         /\ \/ \E o \in {"own", "ownN", "far", "farN", "mono", "stereo"} : hist' = Append(hist, o) /\ UNCHANGED linked
            \/ ~linked /\ hist' = Append(hist, "link") /\ linked' = TRUE
            \/ linked /\ hist' = Append(hist, "unlink") /\ linked' = FALSE
GSpec == GInit /\ [][GNext]_<<hist, linked>>
Emit == (Len(hist') = MaxLen /\ hist'[MaxLen] \in {"mono", "stereo"}) => PrintT("SCN " \o ToJson(hist'))
=============================================================================
