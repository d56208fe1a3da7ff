---------------------------- MODULE AudioFileGen ----------------------------
(* All short histories of the transport's controls.                           *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANT MaxOps
VARIABLE ops
GInit == ops = <<>>
GNext == Len(ops) < MaxOps /\ \E o \in {"play", "pause", "rewind", "stop", "update"} : ops' = Append(ops, o)
GSpec == GInit /\ [][GNext]_ops
Emit == Len(ops') = MaxOps => PrintT("SCN " \o ToJson([ops |-> ops']))
=============================================================================
