----------------------------- MODULE EnvelopeGen -----------------------------
(* All sequences of gates and requests of short, medium and long duration.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist
Ops == {"on", "off", "short", "mid", "long"}
GInit == hist = <<>>
GNext == Len(hist) < Depth /\ \E o \in Ops :
            /\ (hist = <<>> => o \in {"on", "short"})
            /\ hist' = Append(hist, o)
GSpec == GInit /\ [][GNext]_hist
Emit == (Len(hist') = Depth /\ hist'[Depth] \in {"short", "mid", "long"}) => PrintT("SCN " \o ToJson([ops |-> hist']))
=============================================================================
