------------------------------ MODULE HelpersGen ------------------------------
(* Histories of using the shared tables and arrays.                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
GInit == hist = <<>>
GNext == /\ Len(hist) < MaxLen
         /\ \E o \in {"near", "far", "again", "silence", "time", "write"} : hist' = Append(hist, o)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist') = MaxLen => PrintT("SCN " \o ToJson(hist'))
=============================================================================
