------------------------------ MODULE MidiGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES channel, ops
GInit == channel \in 0..15 /\ ops = <<>>
GNext == Len(ops) < MaxOps /\ \E k \in {"on", "quiet", "off", "update"} : ops' = Append(ops, k) /\ UNCHANGED channel
GSpec == GInit /\ [][GNext]_<<channel, ops>>
Emit == Len(ops') = MaxOps => PrintT("SCN " \o ToJson([channel |-> channel, ops |-> ops']))
=============================================================================
