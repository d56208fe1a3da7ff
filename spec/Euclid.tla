-------------------------------- MODULE Euclid --------------------------------
(* Euclidean rhythms: p pulses in n slots, 1 <= p <= n. A rhythm is a sequence
   of 0s and 1s. It is maximally even when, for every k, the distances round the
   cycle from a pulse to its k-th successor differ by at most one. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Only(S) == CHOOSE x \in S : TRUE
Pulses(r) == TLCEval(SelectSeq([i \in 1..Len(r) |-> IF r[i] = 1 THEN i ELSE 0], LAMBDA x : x # 0))
\* distance from pulse i to its k-th successor, 1 <= k < number of pulses
Dist(pos, n, i, k) == LET m == Len(pos) IN IF i + k <= m THEN pos[i + k] - pos[i] ELSE pos[i + k - m] + n - pos[i]
\* the distances of k steps differ by at most one: they are floor or ceiling of k*n/p
EvenAt(pos, n, k) == LET lo == (k * n) \div Len(pos) IN
                     IF lo * Len(pos) = k * n THEN \A i \in DOMAIN pos : Dist(pos, n, i, k) = lo
                     ELSE \A i \in DOMAIN pos : Dist(pos, n, i, k) \in {lo, lo + 1}
EvenPositions(pos, n) == \A k \in 1..(Len(pos) - 1) : EvenAt(pos, n, k)
Even(r) == EvenPositions(Pulses(r), Len(r))
\* the definition as such, without the detour over the mean
EvenByDefinition(r) == LET pos == Pulses(r) IN
    \A k \in 1..(Len(pos) - 1) : LET d == {Dist(pos, Len(r), i, k) : i \in DOMAIN pos} IN
       \A a \in d, b \in d : a - b \in {-1, 0, 1}
Binary(r) == \A i \in DOMAIN r : r[i] \in {0, 1}
IsRhythm(r, p, n) == Len(r) = n /\ Binary(r) /\ \E pos \in {Pulses(r)} : Len(pos) = p /\ EvenPositions(pos, n)
=============================================================================
