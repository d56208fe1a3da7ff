----------------------------- MODULE ArpeggioGen -----------------------------
(* One history for every reachable arpeggio (held pitches, position) and      *)
(* every operation.                                                           *)
EXTENDS Arpeggio, TLC, Json
CONSTANTS Pitches
VARIABLES a, hist
GInit == a \in {New(o) : o \in Orders} /\ hist = <<>>
GAdd == \E p \in Pitches : a' = Add(a, [p |-> p, v |-> 1, f |-> 0]) /\ hist' = Append(hist, [op |-> "add", p |-> p])
GRemove == \E p \in Pitches : a' = Remove(a, p) /\ hist' = Append(hist, [op |-> "remove", p |-> p])
GNextNote == /\ hist' = Append(hist, [op |-> "next", p |-> 0])
             /\ a' = IF a.notes = <<>> THEN a ELSE [a EXCEPT !.pos = (@ + 1) % Steps(a.order, Len(a.notes))]
GNext == GAdd \/ GRemove \/ GNextNote
GSpec == GInit /\ [][GNext]_<<a, hist>>
GView == a
Emit == PrintT("SCN " \o ToJson([order |-> a.order, ops |-> hist']))
=============================================================================
