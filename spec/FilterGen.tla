------------------------------ MODULE FilterGen ------------------------------
(* Every way to split Total samples into chunks, for every kind and delay.   *)
EXTENDS Filter, TLC, Json
CONSTANTS MaxK, Total
VARIABLES f, hist, n
GInit == /\ \E kind \in {"forward", "backward", "echo"}, k \in 1..MaxK : f = NewFilter(kind, k, 1, 1)
         /\ hist = <<>> /\ n = 0
GNext == \E m \in 1..(Total - n) : hist' = Append(hist, m) /\ n' = n + m /\ UNCHANGED f
GSpec == GInit /\ [][GNext]_<<f, hist, n>>
Emit == n' = Total => PrintT("SCN " \o ToJson([kind |-> f.kind, k |-> f.k, chunks |-> hist']))
=============================================================================
