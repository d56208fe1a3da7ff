---------------------------- MODULE BounceDesign ----------------------------
(* The engine at work: blocks run, the output is collected, scaled and kept.  *)
EXTENDS Bounce, TLC
CONSTANTS B, MaxD
VARIABLES D, F, live, k, clock, wav, status
dvars == <<D, F, live, k, clock, wav, status>>
DInit == /\ D \in B..MaxD /\ F \in 0..MaxD /\ live \in BOOLEAN
         /\ k = 0 /\ clock = 0 /\ wav = <<>> /\ status = "running"
DBuffer == /\ status = "running" /\ k < Buffers(D, B, live)
           /\ \E mismatch \in BOOLEAN :
                IF mismatch THEN status' = "error" /\ UNCHANGED <<k, clock, wav>>
                ELSE /\ k' = k + 1 /\ clock' = clock + B
                     /\ wav' = wav \o [i \in 1..B |-> <<clock + i - 1, Gain(clock + i - 1, D, F)>>]
                     /\ UNCHANGED status
           /\ UNCHANGED <<D, F, live>>
DEnd == status = "running" /\ k = Buffers(D, B, live) /\ status' = "done" /\ UNCHANGED <<D, F, live, k, clock, wav>>
DSpec == DInit /\ [][DBuffer \/ DEnd]_dvars
Contiguous == \A i \in DOMAIN wav : wav[i][1] = i - 1
Clock == clock = k * B
Whole == status = "done" => IF live THEN Len(wav) >= D /\ Len(wav) < D + B ELSE Len(wav) <= D /\ Len(wav) > D - B
\* from one at the start, in equal steps, to zero at the end
Faded == \A i \in DOMAIN wav : LET t == wav[i][1] g == wav[i][2] IN
    /\ 0 <= g /\ g <= GainUnit(F)
    /\ t <= D - F => g = GainUnit(F)
    /\ F > 0 /\ t >= D => g = 0
    /\ (F > 0 /\ i > 1 /\ t > D - F /\ t <= D) => wav[i - 1][2] - g = 1
=============================================================================
