---------------------------- MODULE SampleDesign ----------------------------
EXTENDS Sample, TLC
CONSTANTS MaxLen, MaxHeard
VARIABLES s, heard, k0
dvars == <<s, heard, k0>>
\* heard: frames since the last rewind, trim or start; k0: position then
DInit == s \in {New(len, loop) : len \in 1..MaxLen, loop \in BOOLEAN} /\ heard = <<>> /\ k0 = 0
DRead == \E n \in 0..(2 * MaxLen + 1) : /\ Len(heard) < MaxHeard
                                        /\ heard' = heard \o Frames(s, n) /\ s' = Read(s, n) /\ UNCHANGED k0
DRewind == s' = Rewind(s) /\ heard' = <<>> /\ k0' = s.start
DTrim == \E a \in 0..MaxLen, b \in 0..MaxLen : Valid(s, a, b) /\ s' = Trim(s, a, b) /\ heard' = <<>> /\ k0' = s'.pos
DSpec == DInit /\ [][DRead \/ DRewind \/ DTrim]_dvars
InBounds == s.start <= s.pos /\ s.pos <= s.stop
InRegion == \A i \in DOMAIN heard : s.start <= heard[i] /\ heard[i] < s.stop
\* in order, each exactly once, seamless at the end of a loop
InOrder == \A i \in DOMAIN heard :
    heard[i] = IF i = 1 THEN (IF s.loop /\ k0 = s.stop THEN s.start ELSE k0)
               ELSE IF heard[i - 1] + 1 < s.stop THEN heard[i - 1] + 1 ELSE s.start
Once == ~s.loop => Len(heard) <= s.stop - k0 /\ (Len(heard) = s.stop - k0 <=> ~Playing(s))
=============================================================================
