------------------------------- MODULE FlowGen --------------------------------
(* Random histories of a patch of N blocks.                                    *)
EXTENDS Flow, Json
CONSTANTS N, MaxLen
VARIABLES hist
GInit == FlowInit(N) /\ hist = <<>>
Note(o) == hist' = Append(hist, o)
GNext == /\ Len(hist) < MaxLen
         /\ \/ \E a, b \in Blocks, i \in 0..2 : /\ Patched(a, IF i = 2 THEN 2 ELSE 0, b, i)
                 /\ Note([op |-> "connect", a |-> a, o |-> IF i = 2 THEN 2 ELSE 0, b |-> b, i |-> i])
            \/ \E c \in conns : Unpatched(c[1], c[2], c[3], c[4]) /\ Note([op |-> "disconnect", a |-> c[1], o |-> c[2], b |-> c[3], i |-> c[4]])
            \/ \E b \in Blocks : /\ UNCHANGED fvars
                 /\ \/ Note([op |-> "own", b |-> b])
                    \/ \E i \in 0..1 : Note([op |-> "inown", b |-> b, i |-> i])
                    \/ Note([op |-> "send", b |-> b]) \/ Note([op |-> "push", b |-> b])
                    \/ Note([op |-> "rebuild", b |-> b]) \/ Note([op |-> "order", b |-> b]) \/ Note([op |-> "run", b |-> b])
            \/ \E k \in 1..(3 * N) : UNCHANGED fvars /\ Note([op |-> "cycle"])
GSpec == GInit /\ [][GNext]_<<fvars, hist>>
Emit == (Len(hist') = MaxLen) => PrintT("SCN " \o ToJson(hist'))
=============================================================================
