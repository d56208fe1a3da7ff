-------------------------- MODULE LengthenerDesign --------------------------
(* The lengthener driven with any notes at any (integer) times. What it sent  *)
(* is compared with the definition over the complete history.                 *)
EXTENDS NoteFx, TLC
CONSTANTS Durations, MaxTime, MaxNotes, Pitches, Steps, MaxUpdates, MaxChanges
VARIABLES pending, now, log, got, updates,
          duration, changes
dvars == <<pending, now, log, got, updates, duration, changes>>
Note(p, i) == [p |-> p, v |-> 1, f |-> i]     \* f identifies the note-on
DInit == pending = <<>> /\ now = 0 /\ log = <<>> /\ got = <<>> /\ updates = <<>> /\ duration \in Durations /\ changes = 0
Arrivals == {<<>>} \cup {<<[p |-> 1, v |-> 0, f |-> 0]>>}
            \cup {<<Note(p, Len(got) + 1)>> : p \in Pitches}
            \cup {<<Note(p, Len(got) + 1), [p |-> p, v |-> 0, f |-> 0], Note(q, Len(got) + 2)>> : p \in Pitches, q \in Pitches}
Receive == \E d \in Steps, ins \in Arrivals :
    /\ now + d <= MaxTime /\ Len(updates) < MaxUpdates /\ Len(got) + Len(Ons(ins)) <= MaxNotes
    /\ now' = now + d
    /\ updates' = Append(updates, now')
    /\ LET out == LengthenOut(pending, now', ins)
       IN log' = log \o [i \in DOMAIN out |-> <<Len(updates) + 1, out[i]>>]
    /\ got' = got \o [i \in DOMAIN Ons(ins) |-> <<Len(updates) + 1, Ons(ins)[i], duration>>]
    /\ pending' = LengthenNext(pending, now', duration, ins)
    /\ UNCHANGED <<duration, changes>>
Change == /\ changes < MaxChanges /\ changes' = changes + 1 /\ pending # <<>>
          /\ duration' \in Durations \ {duration}
          /\ UNCHANGED <<pending, now, log, got, updates>>
DNext == Receive \/ Change
DSpec == DInit /\ [][DNext]_dvars
\* note-ons pass unchanged, in the same update, in order
Passed == SelectSeq(log, LAMBDA e : e[2].v > 0) = [i \in DOMAIN got |-> <<got[i][1], got[i][2]>>]
\* the first update at which the note is due (or none yet)
Due(g) == updates[g[1]] + g[3]
DueAt(g) == {u \in DOMAIN updates : u >= g[1] /\ updates[u] >= Due(g)}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
OffsOf(g) == SelectSeq(log, LAMBDA e : e[2] = Off(g[2]))
\* with duration zero the note is still silenced in a later update
OncePunctual == \A i \in DOMAIN got :
    LET g == got[i]
        D == {u \in DueAt(g) : u > g[1]}
    IN OffsOf(g) = (IF D = {} THEN <<>> ELSE <<<<First(D), Off(g[2])>>>>)
NothingElse == \A i \in DOMAIN log : log[i][2].v = 0 => \E k \in DOMAIN got : log[i][2] = Off(got[k][2])
OffsFirst == \A i, j \in DOMAIN log : log[i][1] = log[j][1] /\ log[i][2].v = 0 /\ log[j][2].v > 0 => i < j
\* by due time, those of the same time in the order they came
OffsInOrder == \A i, j \in DOMAIN log : i < j /\ log[i][2].v = 0 /\ log[j][2].v = 0 =>
    LET a == got[log[i][2].f]
        b == got[log[j][2].f]
    IN \/ log[i][1] < log[j][1] /\ Due(a) <= Due(b)
       \/ log[i][1] < log[j][1] /\ changes > 0      \* the later one came after the other had gone
       \/ log[i][1] = log[j][1] /\ (Due(a) < Due(b) \/ (Due(a) = Due(b) /\ log[i][2].f < log[j][2].f))
=============================================================================
