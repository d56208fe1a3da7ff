------------------------------ MODULE MergeGen -------------------------------
(* Every short history of messages, updates and added inputs.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, MaxInputs
VARIABLES hist, k, k0
GInit == k0 \in 0..2 /\ k = k0 /\ hist = <<>>
GNext == /\ Len(hist) < Depth /\ UNCHANGED k0
         /\ \/ \E i \in 1..k : hist' = Append(hist, [op |-> "arrive", i |-> i]) /\ UNCHANGED k
            \/ k < MaxInputs /\ hist' = Append(hist, [op |-> "widen", i |-> 0]) /\ k' = k + 1
            \/ hist' = Append(hist, [op |-> "update", i |-> 0]) /\ UNCHANGED k
GSpec == GInit /\ [][GNext]_<<hist, k, k0>>
Emit == Len(hist') = Depth => PrintT("SCN " \o ToJson([k |-> k0, ops |-> hist']))
=============================================================================
