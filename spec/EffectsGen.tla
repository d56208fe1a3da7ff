----------------------------- MODULE EffectsGen ------------------------------
(* Histories of settings and buffers (mono and stereo).                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist
GInit == hist = <<>>
GNext == Len(hist) < MaxLen /\ \E o \in {"mono", "stereo", "low", "middle", "high", "mix", "link", "unlink"} :
            /\ (o \in {"low", "middle", "high", "mix", "link", "unlink"} /\ Len(hist) > 0) => hist[Len(hist)] # o
            /\ hist' = Append(hist, o)
GSpec == GInit /\ [][GNext]_hist
Links(i) == Len(SelectSeq(SubSeq(hist', 1, i), LAMBDA o : o = "link")) - Len(SelectSeq(SubSeq(hist', 1, i), LAMBDA o : o = "unlink"))
Emit == (Len(hist') = MaxLen /\ hist'[MaxLen] \in {"mono", "stereo"} /\ \A i \in 1..MaxLen : Links(i) \in {0, 1}) => PrintT("SCN " \o ToJson(hist'))
=============================================================================
