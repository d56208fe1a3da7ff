-------------------------------- MODULE Tempo ---------------------------------
(* Tempo, metre and note values. Rationals are pairs <<numerator, denominator>>
   with a positive denominator; metres are kept as written (6/8 is not 3/4). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Abs(x) == IF x < 0 THEN -x ELSE x
Reduce(q) == LET g == Gcd(Abs(q[1]), q[2]) IN <<q[1] \div g, q[2] \div g>>
Equal(q, r) == Reduce(q) = Reduce(r)
Mul(q, r) == LET x == Reduce(<<q[1], r[2]>>) y == Reduce(<<r[1], q[2]>>) IN Reduce(<<x[1] * y[1], x[2] * y[2]>>)
Inv(q) == <<q[2], q[1]>>
Div(q, r) == Mul(q, Inv(r))
Add(q, r) == LET g == Gcd(q[2], r[2]) IN Reduce(<<q[1] * (r[2] \div g) + r[1] * (q[2] \div g), q[2] * (r[2] \div g)>>)
RECURSIVE Sum(_)
Sum(qs) == IF qs = <<>> THEN <<0, 1>> ELSE Add(Head(qs), Sum(Tail(qs)))

(* metres, as written *)
Divides(d, x) == x % d = 0
Complex(m) == ~Divides(2, m[1]) /\ ~Divides(3, m[1])
Compound(m) == m[1] >= 6 /\ Divides(3, m[1])
Simple(m) == m[1] \in {2, 3, 4}
PowersOfTwo == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Irrational(m) == m[2] \notin PowersOfTwo
DefaultBeat(m) == <<IF Compound(m) THEN 3 ELSE IF Complex(m) THEN 2 ELSE 1, m[2]>>
NumberOfBeats(m, beat) == Div(m, beat)

(* tempo is in beats per minute *)
Frequency(tempo) == Div(tempo, <<60, 1>>)
Period(tempo) == Inv(Frequency(tempo))
Duration(note, tempo, beat) == Mul(Div(note, beat), Period(tempo))
Bar(tempo, metre, beat) == Duration(metre, tempo, beat)

(* note values *)
Pow2(k) == 2 ^ k
Dot(note, k) == IF k >= 0 THEN Mul(note, <<2 * Pow2(k) - 1, Pow2(k)>>) ELSE Mul(note, <<Pow2(-k), 2 * Pow2(-k) - 1>>)
Dedot(note, k) == Dot(note, -k)
Tuplet(num, notes, den) == Mul(Sum(notes), <<den, num>>)
Base == [LARGE |-> <<8, 1>>, LONG |-> <<4, 1>>, DOUBLE_WHOLE |-> <<2, 1>>, WHOLE |-> <<1, 1>>, HALF |-> <<1, 2>>,
         QUARTER |-> <<1, 4>>, EIGHT |-> <<1, 8>>, SIXTEENTH |-> <<1, 16>>, THIRTY_SECOND |-> <<1, 32>>,
         SIXTY_FOURTH |-> <<1, 64>>, HUNDRED_TWENTY |-> <<1, 128>>, TWO_HUNDRED_FIFTY_SIXTH |-> <<1, 256>>]
=============================================================================
