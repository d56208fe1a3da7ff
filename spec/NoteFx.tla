------------------------------- MODULE NoteFx -------------------------------
(* Note effects. A note is [p, v, f]: pitch, velocity, frequency; v = 0 is a  *)
(* note-off. The effects are functions from state and received notes of one   *)
(* update to the next state and the sent notes.                               *)
EXTENDS Integers, Sequences, SequencesExt
Off(n) == [n EXCEPT !.v = 0]
Ons(ns) == SelectSeq(ns, LAMBDA n : n.v > 0)
Offs(ns) == SelectSeq(ns, LAMBDA n : n.v = 0)

(* Lengthener: pending note-offs <<due, note>> by due time, those of the same  *)
(* time in the order of the note-ons (the duration may change in between).    *)
DueNow(pending, now) == SelectSeq(pending, LAMBDA e : e[1] <= now)
Later(pending, now) == SelectSeq(pending, LAMBDA e : e[1] > now)
LengthenOut(pending, now, ins) ==
    [i \in DOMAIN DueNow(pending, now) |-> Off(DueNow(pending, now)[i][2])] \o Ons(ins)
LengthenNext(pending, now, duration, ins) ==
    LET old == Later(pending, now)
        new == [i \in DOMAIN Ons(ins) |-> <<now + duration, Ons(ins)[i]>>]
    IN SelectSeq(old, LAMBDA e : e[1] <= now + duration) \o new \o SelectSeq(old, LAMBDA e : e[1] > now + duration)

(* Limiter: the notes sounding, oldest first.                                 *)
LimitOne(sounding, n, max) ==
    LET surplus == IF Len(sounding) < max THEN 0 ELSE Len(sounding) + 1 - max      \* more than one if max got lowered
    IN [sounding |-> Append(SubSeq(sounding, surplus + 1, Len(sounding)), n),
        out |-> [i \in 1..surplus |-> Off(sounding[i])] \o <<n>>]
Limit(sounding, ins, max) ==
    FoldLeft(LAMBDA acc, n : LET r == LimitOne(acc.sounding, n, max) IN [sounding |-> r.sounding, out |-> acc.out \o r.out],
             [sounding |-> sounding, out |-> <<>>], Ons(ins))
=============================================================================
