------------------------------ MODULE DacDesign ------------------------------
(* Any signals at any inputs, buffer after buffer.                            *)
EXTENDS Dac, TLC
CONSTANTS MaxInputs, MaxWidth
VARIABLES n, signals, out
dvars == <<n, signals, out>>
\* channel j of input i is 10 i + j
Signal(i, w) == [j \in 1..w |-> 10 * i + j]
DInit == n \in 1..MaxInputs /\ signals = [i \in 1..n |-> Silent] /\ out = <<>>
DSet == \E i \in 1..n, w \in 0..MaxWidth : signals' = [signals EXCEPT ![i] = Signal(i, w)] /\ out' = <<>> /\ UNCHANGED n
DCollect == out = <<>> /\ ~Refused(signals, n) /\ out' = Taken(signals, n) /\ UNCHANGED <<n, signals>>
DSpec == DInit /\ [][DSet \/ DCollect]_dvars
Total == LET F[i \in 0..n] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(signals[i]) IN F[n]
RefusedRight == Refused(signals, n) <=> Total < n
InOrder == \A i, j \in DOMAIN out : (i < j /\ out[i] # 0 /\ out[j] # 0) => out[i] < out[j]
Complete == out # <<>> => Len(out) = n
\* nothing left out: the channels before a taken one of the same input are taken
NoGap == \A i \in DOMAIN out : (out[i] % 10 > 1) => i > 1 /\ out[i - 1] = out[i] - 1
=============================================================================
