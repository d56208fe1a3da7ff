--------------------------- MODULE HelpersDesign ------------------------------
(* Walks over small numbers, and a run with its progress.                      *)
EXTENDS Helpers
CONSTANTS Top
VARIABLES x, y, found, i, n, w
vars == <<x, y, found, i, n, w>>
Init == /\ x \in 1..Top /\ y \in 1..Top /\ found = <<>> /\ n \in 0..6 /\ w \in {0, 1, 5, 20} /\ i = 0
Next == \/ Len(found) < 4 /\ found' = Append(found, NextPrime(IF found = <<>> THEN x ELSE Last(found) + 1)) /\ UNCHANGED <<x, y, i, n, w>>
        \/ i < n /\ i' = i + 1 /\ UNCHANGED <<x, y, found, n, w>>
Spec == Init /\ [][Next]_vars
\* the primes found are all there are between
NoneLeftOut == /\ \A k \in DOMAIN found : Cardinality({d \in 1..found[k] : found[k] % d = 0}) = 2
               /\ found # <<>> => {p \in x..Last(found) : Cardinality({d \in 1..p : p % d = 0}) = 2} = Range(found)
Multiples == /\ Lcm(x, y) % x = 0 /\ Lcm(x, y) % y = 0 /\ \A m \in 1..(Lcm(x, y) - 1) : m % x # 0 \/ m % y # 0
             /\ PowerOfTwo(x) <=> \E k \in 0..10 : 2 ^ k = x
             /\ Dyadic(x, y) <=> \E k \in 0..10 : (x * (2 ^ k)) % y = 0
Phases == /\ Wrap(x, 2 * y) \in (-y)..(y - 1) /\ (x - Wrap(x, 2 * y)) % (2 * y) = 0 /\ Wrap(Wrap(x, 2 * y), 2 * y) = Wrap(x, 2 * y)
          /\ Wrap(-x, 2 * y) = IF Wrap(x, 2 * y) = -y THEN -y ELSE -Wrap(x, 2 * y)
Ranges == \A a \in 1..Top : (x <= y) => Clip(a, x, y) \in x..y /\ (a \in x..y => Clip(a, x, y) = a) /\ Clip(-a, -y, -x) = -Clip(a, x, y)
\* the bar grows from nothing to full, never beyond
Grows == [][Stars(i', n, w) >= Stars(i, n, w)]_vars
Full == /\ Stars(i, n, w) \in 0..w /\ (n > 1 /\ i >= n - 1) => Stars(i, n, w) = w
        /\ i = 0 => Stars(i, n, w) = 0
=============================================================================
