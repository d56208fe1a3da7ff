------------------------------ MODULE MixerGen ------------------------------
(* Every sequence of additions up to Depth over 2 sources and 2 mixers.      *)
EXTENDS Mixer, TLC, Json
CONSTANTS Depth
VARIABLES hist
gvars == <<mvars, hist>>
Kinds == <<[stereo |-> FALSE, inputs |-> 0], [stereo |-> TRUE, inputs |-> 1]>>
GInit == MixerInit(2, Kinds) /\ hist = <<>>
GPlus == /\ Len(hist) < Depth
         /\ \E a, b \in DOMAIN sig, r \in 1..(Len(sig) + 1) :
            /\ Plus(a, b, r)
            /\ hist' = Append(hist, [op |-> "plus", a |-> a, b |-> b])
GSpec == GInit /\ [][GPlus]_gvars
Emit == Len(hist') = Depth => PrintT("SCN " \o ToJson([cfg |-> [n |-> 2, kinds |-> Kinds], ops |-> hist']))
=============================================================================
