-------------------------------- MODULE Reverb --------------------------------
(* A reverb is the mean of comb filters whose delays are consecutive primes,   *)
(* blended with the dry signal. Every comb has its own line of buffers of N    *)
(* samples (see Delay). The gain of a comb of k samples is 2^(-k/H): the tail  *)
(* halves every H samples (H = 0: no echo, H = -1: no decay at all).           *)
EXTENDS Delay
RECURSIVE NoDivisor(_, _)
NoDivisor(n, d) == d > n \div d \/ (n % d # 0 /\ NoDivisor(n, d + 1))
IsPrime(n) == n > 1 /\ NoDivisor(n, 2)
RECURSIVE NextPrime(_)
NextPrime(n) == IF n <= 2 THEN 2 ELSE IF IsPrime(n) THEN n ELSE NextPrime(n + 1)
RECURSIVE Primes(_, _)
Primes(count, from) == IF count = 0 THEN <<>>
                       ELSE Only({<<p>> \o Primes(count - 1, p + 1) : p \in {NextPrime(from)}})
One == 32768
(* 2^(-1/2), 2^(-1/4), ... *)
Roots == <<23170, 27554, 30048, 31379, 32066, 32415, 32591, 32679, 32724, 32746>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE Fraction(_, _, _, _)
\* product of the roots of the binary digits of r / H
Fraction(r, H, i, acc) ==
    IF r = 0 THEN acc
    ELSE IF 2 * r >= H THEN Fraction((2 * r) - H, H, i + 1, (acc * Roots[i]) \div One)
    ELSE Fraction(2 * r, H, i + 1, acc)
Gain(k, H) == IF H = 0 THEN 0 ELSE IF H = -1 THEN One
              ELSE IF k \div H > 15 THEN 0 ELSE Fraction(k % H, H, 1, One) \div Pow2(k \div H)
Times(v, g) == IF g = One THEN v ELSE IF g = 0 THEN 0 ELSE (v * g) \div One
(* one buffer through the line of a comb of L samples: what comes back from    *)
(* the line, what goes out and what is fed in *)
Fed1(kind, x, w, g) == IF kind = "forward" THEN x ELSE x + Times(w, g)
Sent(kind, x, w, g) == IF kind = "echo" THEN w ELSE x + Times(w, g)
FedIn(kind, L, g, xs, old) ==
    IF L >= N THEN [k \in 1..N |-> Fed1(kind, At(xs, k), old[k], g)]
    ELSE FoldLeft(LAMBDA acc, k : Append(acc, Fed1(kind, At(xs, k), IF k <= L THEN old[k] ELSE acc[k - L], g)), <<>>, [k \in 1..N |-> k])
Comb(kind, line, L, g, xs) ==
    Only({ Only({ [out |-> TLCEval([k \in 1..N |-> Sent(kind, At(xs, k), IF k <= L THEN old[k] ELSE fed[k - L], g)]),
                   line |-> Append(line, Packed(fed))]
                  : fed \in {TLCEval(FedIn(kind, L, g, xs, old))} })
           : old \in {TLCEval(Out(line, L, N * Len(line)))} })
\* wet part times the number of combs
WetSum(combs) == [k \in 1..N |-> FoldLeft(LAMBDA a, c : a + c.out[k], 0, combs)]
=============================================================================
