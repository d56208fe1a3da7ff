---------------------------- MODULE LimiterDesign ----------------------------
EXTENDS NoteFx, TLC
CONSTANTS MaxMax, MaxNotes, Pitches, MaxChanges
VARIABLES sounding, log, got, max,
          limits,       \* limits[k]: the maximum when log[k] was sent
          changes
dvars == <<sounding, log, got, max, limits, changes>>
DInit == sounding = <<>> /\ log = <<>> /\ got = <<>> /\ max \in 1..MaxMax /\ limits = <<>> /\ changes = 0
Receive == \E ps \in {<<>>} \cup {<<p>> : p \in Pitches \cup {0}} \cup {<<p, q>> : p \in Pitches \cup {0}, q \in Pitches} :
    LET ins == [i \in DOMAIN ps |-> IF ps[i] = 0 THEN [p |-> 1, v |-> 0, f |-> 0]
                                    ELSE [p |-> ps[i], v |-> 1, f |-> Len(got) + Len(Ons([k \in 1..i |-> [p |-> 1, v |-> ps[k], f |-> 0]]))]]
        r == Limit(sounding, ins, max)
    IN /\ Len(got) + Len(Ons(ins)) <= MaxNotes
       /\ sounding' = r.sounding /\ log' = log \o r.out /\ got' = got \o Ons(ins) /\ limits' = limits \o [i \in DOMAIN r.out |-> max] /\ UNCHANGED <<max, changes>>
Change == \E m \in 1..MaxMax : max' = m /\ m # max /\ got # <<>> /\ changes < MaxChanges /\ changes' = changes + 1 /\ UNCHANGED <<sounding, log, got, limits>>
DNext == Receive \/ Change
DSpec == DInit /\ [][DNext]_dvars
\* what sounds, according to the messages sent only
Sound(k) == LET pre == SubSeq(log, 1, k)
            IN Len(Ons(pre)) - Len(Offs(pre))
NeverMore == \A k \in DOMAIN log : log[k].v > 0 => Sound(k) <= limits[k]
AllOnes == Ons(log) = got
Complete == (changes = 0 /\ Len(got) <= max) => Offs(log) = <<>>
AsManyAsPossible == changes = 0 => Sound(Len(log)) = (IF Len(got) < max THEN Len(got) ELSE max)
OldestFirst == Offs(log) = [i \in DOMAIN Offs(log) |-> Off(got[i])]
JustBefore == \A k \in DOMAIN log : log[k].v = 0 => k < Len(log) /\ (changes = 0 => log[k + 1].v > 0 /\ log[k + 1].f = log[k].f + max)
\* a note is silenced only if the next one would be too many
NotEarlier == \A k \in DOMAIN log : log[k].v = 0 => Sound(k - 1) + 1 > limits[k]
=============================================================================
