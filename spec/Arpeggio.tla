------------------------------ MODULE Arpeggio ------------------------------
(* The arpeggio: held notes, sorted by pitch, visited in some order. A held   *)
(* note is [p, v, f]. For the order "random" the permutation is not known     *)
(* beforehand: perm holds what has been visited since it was made (-1: not    *)
(* visited yet).                                                              *)
EXTENDS Integers, Sequences, FiniteSets
Orders == {"up", "down", "upDown", "downUp", "alternating", "random"}
Steps(order, n) == IF n >= 2 /\ order \in {"upDown", "downUp"} THEN 2 * n - 2 ELSE n
\* the index (0..n-1) visited at position i (0..Steps-1)
Visit(order, n, i) ==
    CASE order = "up" -> i
      [] order = "down" -> n - 1 - i
      [] order = "upDown" -> IF i <= n - 1 THEN i ELSE 2 * (n - 1) - i
      [] order = "downUp" -> IF i <= n - 1 THEN n - 1 - i ELSE i - (n - 1)
      [] order = "alternating" -> IF i % 2 = 0 THEN i \div 2 ELSE n - 1 - i \div 2

New(order) == [order |-> order, notes |-> <<>>, pos |-> 0, perm |-> <<>>]
Holds(a, p) == \E i \in DOMAIN a.notes : a.notes[i].p = p
Changed(a, ns) ==
    LET k == Steps(a.order, Len(ns))
    IN [a EXCEPT !.notes = ns, !.pos = IF k = 0 THEN 0 ELSE @ % k, !.perm = [i \in 1..Len(ns) |-> -1]]
Below(a, p) == SelectSeq(a.notes, LAMBDA n : n.p < p)
Above(a, p) == SelectSeq(a.notes, LAMBDA n : n.p > p)
Add(a, n) == IF Holds(a, n.p) THEN a ELSE Changed(a, Below(a, n.p) \o <<n>> \o Above(a, n.p))
Remove(a, p) == IF ~Holds(a, p) THEN a ELSE Changed(a, Below(a, p) \o Above(a, p))
Press(a, n) == IF n.v > 0 THEN Add(a, n) ELSE Remove(a, n.p)
RECURSIVE PressAll(_, _)
PressAll(a, ns) == IF ns = <<>> THEN a ELSE PressAll(Press(a, Head(ns)), Tail(ns))

\* which notes may be visited next, and the arpeggio afterwards
Indices(a) ==
    IF a.order # "random" \/ Len(a.notes) = 1 THEN {Visit(IF a.order = "random" THEN "up" ELSE a.order, Len(a.notes), a.pos)}
    ELSE IF a.perm[a.pos + 1] >= 0 THEN {a.perm[a.pos + 1]}
    ELSE (0..(Len(a.notes) - 1)) \ {a.perm[i] : i \in DOMAIN a.perm}
Stepped(a, k) == [a EXCEPT !.pos = (@ + 1) % Steps(a.order, Len(a.notes)),
                           !.perm = IF a.order = "random" THEN [@ EXCEPT ![a.pos + 1] = k] ELSE @]
Nexts(a) == IF a.notes = <<>> THEN {} ELSE {<<a.notes[k + 1], Stepped(a, k)>> : k \in Indices(a)}
=============================================================================
