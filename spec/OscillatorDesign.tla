--------------------------- MODULE OscillatorDesign ---------------------------
(* An oscillator and a copy of it with changing frequencies.                  *)
EXTENDS Oscillator, TLC
CONSTANTS Freqs, MaxUpdates
VARIABLES osc, total, n, out
dvars == <<osc, total, n, out>>
\* osc[i] = <<phase, frequency>>; total[i]: turned altogether, without wrapping
F == {<<f>> : f \in Freqs} \cup [1..N -> Freqs]
DInit == \E p \in 0..(U - 1), f \in Freqs : osc = << <<p, <<f>> >> >> /\ total = <<p>> /\ n = 0 /\ out = <<>>
DFreq == \E i \in DOMAIN osc, f \in F : osc' = [osc EXCEPT ![i][2] = f] /\ f # osc[i][2] /\ out' = <<>> /\ UNCHANGED <<total, n>>
DUpdate == \E i \in DOMAIN osc : /\ n < MaxUpdates /\ n' = n + 1
           /\ out' = <<i, Phases(osc[i][1], osc[i][2])>>
           /\ osc' = [osc EXCEPT ![i][1] = After(osc[i][1], osc[i][2])]
           /\ total' = [total EXCEPT ![i] = @ + FoldLeft(LAMBDA a, b : a + b, 0, [k \in 1..N |-> At(osc[i][2], k)])]
DClone == /\ Len(osc) = 1 /\ osc' = osc \o osc /\ total' = total \o total /\ out' = <<>> /\ UNCHANGED n
DSpec == DInit /\ [][DFreq \/ DUpdate \/ DClone]_dvars
InTurn == \A i \in DOMAIN osc : osc[i][1] \in 0..(U - 1)
Exact == \A i \in DOMAIN osc : osc[i][1] = total[i] % U
ScalarAgrees == \A i \in DOMAIN osc : Len(osc[i][2]) = 1 => Stepped(osc[i][1], osc[i][2]) = After(osc[i][1], osc[i][2])
\* a constant frequency and the same one for every sample are the same
SameForms == \A i \in DOMAIN osc : \A f \in Freqs : Phases(osc[i][1], <<f>>) = Phases(osc[i][1], [k \in 1..N |-> f])
\* the first phase of a buffer is the one reached before; only the updated one moves
Continuous == [][\A i \in DOMAIN osc : IF out' # <<>> /\ out'[1] = i THEN out'[2][1] = osc[i][1] /\ osc'[i][1] = out'[2][N + 1] ELSE osc'[i][1] = osc[i][1]]_dvars
SquareMean == \A d \in 1..(U - 1) : \A p \in 0..(U - 1) : Square(p, d) # {}
=============================================================================
