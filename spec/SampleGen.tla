------------------------------ MODULE SampleGen ------------------------------
(* One history for every state of a sample and every operation.               *)
EXTENDS Sample, TLC, Json
CONSTANT MaxLen
VARIABLES s, hist
GInit == s \in {New(len, loop) : len \in 1..MaxLen, loop \in BOOLEAN} /\ hist = <<>>
GRead == \E n \in 0..(2 * MaxLen + 1) : s' = Read(s, n) /\ hist' = Append(hist, [op |-> "callback", n |-> n])
GRewind == s' = Rewind(s) /\ hist' = Append(hist, [op |-> "rewind"])
GTrim == \E a \in -1..(MaxLen + 1), b \in -1..(MaxLen + 1) :
            /\ s' = (IF Valid(s, a, b) THEN Trim(s, a, b) ELSE s)
            /\ hist' = Append(hist, [op |-> "trim", start |-> a, stop |-> b])
GSpec == GInit /\ [][GRead \/ GRewind \/ GTrim]_<<s, hist>>
GView == s
Emit == PrintT("SCN " \o ToJson([len |-> s.len, loop |-> s.loop, ops |-> hist']))
=============================================================================
