----------------------------- MODULE MonoDesign -----------------------------
(* The heap scheme of the code (keys by policy, smallest key plays) agrees    *)
(* with the definition of the policies, for all key histories.                *)
EXTENDS Mono, FiniteSets, TLC
CONSTANTS Pitches, MaxPresses
VARIABLES policy, hs, items, count, last
dvars == <<policy, hs, items, count, last>>
Off(p) == [p |-> p, v |-> 0, f |-> 0]
DInit == policy \in Policies /\ hs = {<<>>} /\ items = {} /\ count = 0 /\ last = Off(0)
\* negated key, as items are taken from a min heap
HeapKey(n) == CASE policy = "newest" -> -count [] policy = "oldest" -> count
                [] policy = "highest" -> -n.p [] policy = "lowest" -> n.p
Least(its) == {i \in its : \A k \in its : i.key <= k.key}
Play(its, n) == IF its = {} THEN last' = n ELSE \E i \in Least(its) : last' = i.note
Press(p) == LET n == [p |-> p, v |-> 1, f |-> count + 1] IN
    /\ count < MaxPresses /\ count' = count + 1
    /\ items' = items \cup {[key |-> HeapKey(n), note |-> n]}
    /\ hs' = KeyAll(hs, n) /\ Play(items', n)
Release(p) ==
    /\ UNCHANGED count
    /\ hs' = KeyAll(hs, Off(p))
    /\ LET same == {i \in items : i.note.p = p} IN
       IF same = {} THEN UNCHANGED items ELSE \E i \in same : items' = items \ {i}
    /\ Play(items', Off(p))
DNext == UNCHANGED policy /\ \E p \in Pitches : Press(p) \/ Release(p)
DSpec == DInit /\ [][DNext]_dvars
Agrees == IF items = {} THEN <<>> \in hs /\ last.v = 0
          ELSE Playing(policy, hs, last) # {}
SameNotes == \E h \in hs : {i.note : i \in items} = {h[k] : k \in DOMAIN h}
Counted == \A p \in Pitches : \A h \in hs : Cardinality(Positions(h, p)) = Cardinality({i \in items : i.note.p = p})
=============================================================================
