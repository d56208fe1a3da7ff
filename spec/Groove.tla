-------------------------------- MODULE Groove --------------------------------
(* Micro rhythms bend a phase (in turns, a fraction <<num, den>>). The notes of
   the pattern (weights ws) take up equal parts of the cycle instead of parts
   proportional to their duration; the pattern is repeated n times per cycle and
   blended with the straight phase by the phrasing x.
   A rhythm block has a phase input, a phrasing input (own value or connected)
   and an output.                                                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Only(S) == CHOOSE x \in S : TRUE
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Red(r) == Only({<<r[1] \div g, r[2] \div g>> : g \in {Gcd(Abs(r[1]), r[2])}})
Sum(ws) == FoldLeft(LAMBDA x, w : x + w, 0, ws)
Start(ws, i) == Sum(SubSeq(ws, 1, i))

(* the pattern repeated n times, as a fraction of the turn (phase p in [0, 1)) *)
Bend(ws, n, p) ==
    LET den == p[2]
        part == (n * p[1]) \div den
        q == ((n * p[1]) % den) * Sum(ws)     \* in units of 1 / (den * Sum(ws))
        i == CHOOSE j \in 0..(Len(ws) - 1) : /\ Start(ws, j) * den <= q
                                             /\ q < Start(ws, j + 1) * den
        w == ws[i + 1]
    IN Red(<<(((part * Len(ws)) + i) * w * den) + (q - (Start(ws, i) * den)), n * Len(ws) * w * den>>)
(* (1 - x) * straight + x * bent, kept small by reduction *)
Blend(p, g, x) ==
    IF x[1] = 0 THEN Red(p)
    ELSE IF x[1] = x[2] THEN g
    ELSE Only({LET c == (a[2] \div Gcd(a[2], b[2])) * b[2]
               IN Red(<<((x[2] - x[1]) * a[1] * (c \div a[2])) + (x[1] * b[1] * (c \div b[2])), x[2] * c>>)
               : a \in {Red(p)}, b \in {g}})
Wrap(p) == <<p[1] % p[2], p[2]>>
Warp(ws, n, x, p) == Blend(Wrap(p), Bend(ws, n, Wrap(p)), x)
(* Repetitions per cycle when not told: as often as the beat fits a whole note *)
Repeats(beat) == beat[2] \div beat[1]

Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Same(a, b) == a[1] * b[2] = b[1] * a[2]
(* digits decimal digits of a fraction below 2^31 / 10 *)
RECURSIVE Digits(_, _, _)
Digits(r, k, acc) == IF k = 0 THEN acc + (r[1] \div r[2])
                     ELSE Digits(<<(r[1] % r[2]) * 10, r[2]>>, k - 1, (acc + (r[1] \div r[2])) * 10)
Scaled(r, k) == Digits(r, k, 0)
=============================================================================
