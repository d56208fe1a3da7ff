------------------------------ MODULE RingGen ------------------------------
(* One history for every reachable (position, amount written) and every next *)
(* write, for all small sizes; the storage is summarised by the view.        *)
EXTENDS RingDesign, Json
VARIABLES hist
GInit == DInit /\ hist = <<>>
GView == <<length, capacity, bufsize, pos, written>>
GAppend == DAppend /\ hist' = Append(hist, [op |-> "append", n |-> 1])
GExtend == \E m \in 0..bufsize, k \in {"extend", "peek_extend"} :
    /\ pos' = (pos + m) % length
    /\ written' = Min(written + m, length)
    /\ UNCHANGED <<length, capacity, bufsize, data>>
    /\ hist' = Append(hist, [op |-> k, n |-> m])
GNext == GAppend \/ GExtend
GSpec == GInit /\ [][GNext]_<<dvars, hist>>
Emit == PrintT("SCN " \o ToJson([cfg |-> [length |-> capacity, capacity |-> capacity, bufsize |-> bufsize], ops |-> hist']))
=============================================================================
