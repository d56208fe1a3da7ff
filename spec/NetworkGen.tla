------------------------------ MODULE NetworkGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES ops
\* an object sent by a block, several objects in one datagram, broken datagrams
\* of different kinds, an empty datagram, an update of the receiver
Kinds == {"send", "many", "garbage", "wrong", "empty", "update"}
GInit == ops = <<>>
GNext == Len(ops) < MaxOps /\ \E k \in Kinds : ops' = Append(ops, k)
GSpec == GInit /\ [][GNext]_ops
Emit == Len(ops') = MaxOps => PrintT("SCN " \o ToJson([ops |-> ops']))
=============================================================================
