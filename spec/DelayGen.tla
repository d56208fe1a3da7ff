------------------------------- MODULE DelayGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxBuffers
VARIABLES L, kind, ops
\* lengths around a buffer of 256 samples; silent, single pulse, noise
GInit == /\ L \in {1, 2, 5, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700}
         /\ kind \in {"mono", "stereo"} /\ ops = <<>>
GNext == Len(ops) < MaxBuffers /\ \E k \in {"silence", "pulse", "noise", "both"} : ops' = Append(ops, k) /\ (k = "both" => kind = "stereo" \/ Len(ops) = 0) /\ UNCHANGED <<L, kind>>
GSpec == GInit /\ [][GNext]_<<L, kind, ops>>
Emit == Len(ops') = MaxBuffers => PrintT("SCN " \o ToJson([L |-> L, kind |-> kind, ops |-> ops']))
=============================================================================
