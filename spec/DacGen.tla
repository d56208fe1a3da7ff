------------------------------- MODULE DacGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxInputs, MaxWidth
VARIABLES n, ws
\* width per input; -1: not connected, -2: one-dimensional
GInit == n \in 1..MaxInputs /\ ws = <<>>
GNext == Len(ws) < n /\ \E w \in -2..MaxWidth : ws' = Append(ws, w) /\ UNCHANGED n
GSpec == GInit /\ [][GNext]_<<n, ws>>
Emit == Len(ws') = n => PrintT("SCN " \o ToJson([ws |-> ws']))
=============================================================================
