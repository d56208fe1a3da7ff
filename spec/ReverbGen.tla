------------------------------ MODULE ReverbGen ------------------------------
(* All short histories of silent, sparse and dense buffers for the kinds of
   reverbs.                                                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxBuffers
VARIABLES conf, bufs
GInit == bufs = <<>> /\ conf \in [echos : {1, 2, 3, 5}, delay : {"none", "short", "buffer", "long"}, decay : {"none", "endless", "fast", "slow"},
                                  mix : {0, 1, 2, 4}]
GNext == Len(bufs) < MaxBuffers /\ \E b \in {"silence", "pulse", "dense"} : bufs' = Append(bufs, b) /\ UNCHANGED conf
GSpec == GInit /\ [][GNext]_<<conf, bufs>>
Emit == (Len(bufs') = MaxBuffers /\ \E i \in DOMAIN bufs' : bufs'[i] # "silence") => PrintT("SCN " \o ToJson([conf |-> conf, bufs |-> bufs']))
=============================================================================
