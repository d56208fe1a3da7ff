------------------------------ MODULE Helpers ---------------------------------
(* Elementary values and functions: notes, primes, phases, ranges, mappings,   *)
(* shared arrays and the progress shown of a long run.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* notes: p pitch, v velocity in 1 / 1000, f frequency in 1 / 1000 Hz; a note which is refused
ValidNote(n) == n.p \in 0..127 /\ n.v \in 0..1000 /\ n.f >= 0
Silenced(n) == [n EXCEPT !.v = 0]
Before(a, b) == \/ a.p < b.p \/ (a.p = b.p /\ a.v < b.v) \/ (a.p = b.p /\ a.v = b.v /\ a.f < b.f)
\* primes
Divides(d, n) == n % d = 0
RECURSIVE NoDivisor(_, _)
NoDivisor(n, d) == IF d * d > n THEN TRUE ELSE IF Divides(d, n) THEN FALSE ELSE NoDivisor(n, d + 1)
IsPrime(n) == n > 1 /\ NoDivisor(n, 2)
RECURSIVE NextPrime(_)
NextPrime(n) == IF IsPrime(n) THEN n ELSE NextPrime(n + 1)
\* the next n primes from start on
RECURSIVE NextPrimes(_, _)
NextPrimes(n, start) == IF n = 0 THEN <<>> ELSE LET p == TLCEval(NextPrime(TLCEval(start))) IN <<p>> \o NextPrimes(n - 1, p + 1)
\* the least element of a sorted sequence which is at least x; none: refused
AtLeast(s, x) == {y \in Range(s) : y >= x}
\* phases: a turn has u units (even); the two ends are one place
Wrap(x, u) == ((x + (u \div 2)) % u) - (u \div 2)
Clip(x, lower, upper) == IF x < lower THEN lower ELSE IF x > upper THEN upper ELSE x
RECURSIVE PowerOfTwo(_)
PowerOfTwo(n) == IF n < 1 THEN FALSE ELSE IF n = 1 THEN TRUE ELSE n % 2 = 0 /\ PowerOfTwo(n \div 2)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (Abs(a) \div Gcd(Abs(a), Abs(b))) * Abs(b)
\* dyadic fraction num / den
Dyadic(num, den) == PowerOfTwo(den \div Gcd(den, Abs(num)))
\* x sixteenths of b and the rest of a (times 16)
Blend(a, b, x) == ((16 - x) * a) + (x * b)
\* progress: i of n; stars of a bar of w
Stars(i, n, w) == (w * Clip(i, 0, Max({1, n - 1}))) \div Max({1, n - 1})
=============================================================================
