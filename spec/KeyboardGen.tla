----------------------------- MODULE KeyboardGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxEvents
VARIABLES ev
GInit == ev = <<>>
GNext == Len(ev) < MaxEvents /\ \E k \in {"n1", "n2", "octave", "velocity", "temper", "other"}, d \in BOOLEAN :
    \* releases of keys which were never pressed only at the beginning
    /\ (~d => Len(ev) = 0 \/ \E i \in DOMAIN ev : ev[i].k = k)
    /\ ev' = Append(ev, [k |-> k, d |-> d])
GSpec == GInit /\ [][GNext]_ev
Emit == Len(ev') = MaxEvents => PrintT("SCN " \o ToJson([ev |-> ev']))
=============================================================================
