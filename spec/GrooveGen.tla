------------------------------ MODULE GrooveGen ------------------------------
(* All histories up to a length of a rhythm block: phrasing set on the input,
   from a connected knob, disconnected again, phases from two sources.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES hist, knob
GInit == hist = <<>> /\ knob = FALSE
Do(o) == hist' = Append(hist, o)
GNext == /\ Len(hist) < MaxLen
         /\ \/ \E v \in 0..2 : Do("own" \o ToString(v)) /\ UNCHANGED knob
            \/ \E v \in 0..2 : Do("knob" \o ToString(v)) /\ UNCHANGED knob
            \/ ~knob /\ Do("connect") /\ knob' = TRUE
            \/ knob /\ Do("disconnect") /\ knob' = FALSE
            \/ Do("update") /\ UNCHANGED knob
            \/ Do("warp") /\ UNCHANGED knob
GSpec == GInit /\ [][GNext]_<<hist, knob>>
Emit == Len(hist') = MaxLen => PrintT("SCN " \o ToJson(hist'))
=============================================================================
