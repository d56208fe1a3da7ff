--------------------------- MODULE ArpeggioDesign ---------------------------
(* The arpeggiator: arpeggio + note sounding. Each update takes notes, then   *)
(* steps if the phase wrapped.                                                *)
EXTENDS Arpeggio, TLC
CONSTANTS Pitches, MaxLog
VARIABLES a, sounding, log, run
dvars == <<a, sounding, log, run>>
None == [p |-> -1, v |-> 0, f |-> 0]
DInit == a \in {New(o) : o \in Orders} /\ sounding = None /\ log = <<>> /\ run = <<>>
Presses == {<<>>} \cup {<<[p |-> p, v |-> v, f |-> 0]>> : p \in Pitches, v \in 0..1}
           \cup {<<[p |-> p, v |-> v, f |-> 0], [p |-> q, v |-> w, f |-> 0]>> : p \in Pitches, v \in 0..1, q \in Pitches, w \in 0..1}
DUpdate == \E ns \in Presses, wrap \in BOOLEAN :
    LET b == PressAll(a, ns) IN
    /\ Len(log) < MaxLog
    /\ IF ~wrap THEN a' = b /\ UNCHANGED <<sounding, log>> /\ run' = IF ns = <<>> THEN run ELSE <<>>
       ELSE LET off == IF sounding = None THEN <<>> ELSE <<[sounding EXCEPT !.v = 0]>>
            IN IF b.notes = <<>> THEN a' = b /\ sounding' = None /\ log' = log \o off /\ run' = <<>>
               ELSE \E x \in Nexts(b) : a' = x[2] /\ sounding' = x[1] /\ log' = log \o off \o <<x[1]>>
                                        /\ run' = IF ns = <<>> THEN Append(run, x[1].p) ELSE <<x[1].p>>
DSpec == DInit /\ [][DUpdate]_dvars
View == <<a, sounding, run>>
InRange == a.notes # <<>> => a.pos \in 0..(Steps(a.order, Len(a.notes)) - 1)
Sorted == \A i, j \in DOMAIN a.notes : i < j => a.notes[i].p < a.notes[j].p
\* after every message at most one note sounds, every off matches the on before it
Paired == \A i \in DOMAIN log :
    IF i % 2 = 1 THEN log[i].v > 0 ELSE log[i].v = 0 /\ log[i].p = log[i - 1].p
SoundingLast == sounding = (IF log = <<>> \/ log[Len(log)].v = 0 THEN None ELSE log[Len(log)])
\* undisturbed, each cycle visits every held note: as often in every cycle
Held == {a.notes[i].p : i \in DOMAIN a.notes}
Cycle == LET k == Steps(a.order, Len(a.notes)) IN
    (Len(a.notes) > 0 /\ Len(run) >= k) =>
        {run[i] : i \in (Len(run) - k + 1)..Len(run)} = Held
Periodic == LET k == Steps(a.order, Len(a.notes)) IN
    (Len(a.notes) > 0 /\ Len(run) > k) => run[Len(run)] = run[Len(run) - k]
\* up and down move to the neighbour
Upwards == a.order = "up" => \A i \in 1..(Len(run) - 1) : run[i + 1] > run[i] \/ run[i] = a.notes[Len(a.notes)].p
=============================================================================
