------------------------------ MODULE Sequencer ------------------------------
(* Pattern sequencer. Time is counted in updates. A channel's phase moves a/b *)
(* steps per update (rate); position = number of the step the phase lies in,  *)
(* counted from the start without wrapping. A micro rhythm [ws, n, xn, xd]    *)
(* bends the phase: n times per cycle the notes with the weights ws take up   *)
(* equal parts, blended with the straight phase by xn/xd.                     *)
EXTENDS Integers, Sequences, SequencesExt
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(a, b) == LET g == Gcd(a, b) IN <<a \div g, b \div g>>
Ceil(a, b) == -((-a) \div b)
Sum(ws) == FoldLeft(LAMBDA x, w : x + w, 0, ws)

(* Steps per update: the buffer duration 256/44100 over the step duration     *)
(* grid/beat * 60/tempo.                                                      *)
RateOf(c) ==
    IF c.mode = "turn" THEN <<c.a, c.b>>
    ELSE LET r == Reduce(16, 165375)
             x == Reduce(c.tempo[1] * c.beat[1] * c.grid[2], c.tempo[2] * c.beat[2] * c.grid[1])
             y == Reduce(r[1], x[2])
             z == Reduce(x[1], r[2])
         IN <<y[1] * z[1], z[2] * y[2]>>

Straight == [ws |-> <<1>>, n |-> 1, xn |-> 0, xd |-> 1]
(* Position after k updates of a channel with len steps.                      *)
Position(rate, len, k, m) ==
    LET Q == rate[2] * len
        P == (k * rate[1]) % Q
        cycle == (k * rate[1]) \div Q
    IN IF m.xn = 0 THEN cycle * len + P \div rate[2]
       ELSE LET W == Sum(m.ws)
                N == Len(m.ws)
                F == (m.n * P) \div Q
                q == ((m.n * P) % Q) * W
                Start(i) == Sum(SubSeq(m.ws, 1, i))
                i == CHOOSE j \in 0..(N - 1) : Start(j) * Q <= q /\ q < Start(j + 1) * Q
                w == m.ws[i + 1]
                groove == F * N * w * Q + i * w * Q + q - Start(i) * Q
                num == (m.xd - m.xn) * m.n * N * w * P + m.xn * groove
            IN cycle * len + num \div (m.xd * m.n * N * w * rate[2])

(* A channel: pattern (sequence of sequences of pitches), k updates so far,   *)
(* last position played, pending note-offs <<due, pitch>>, micro rhythm.      *)
Channel(pattern) == [pattern |-> pattern, k |-> 0, reached |-> -1, pending |-> <<>>,
                     on |-> FALSE, mr |-> Straight, before |-> Straight]
Apply(ch, m) == [ch EXCEPT !.on = TRUE, !.mr = m, !.before = m]
Reset(ch) == [ch EXCEPT !.on = FALSE, !.mr = Straight, !.before = Straight]
(* The micro rhythm block works after the sequence: its phase arrives one     *)
(* update later. A new phrasing may already be in force or not.               *)
Wanted(ch, rate, m) ==
    IF ~ch.on THEN Position(rate, Len(ch.pattern), ch.k, Straight)
    ELSE Position(rate, Len(ch.pattern), IF ch.k = 0 THEN 0 ELSE ch.k - 1, m)
Played(ch, pos) ==
    FoldLeft(LAMBDA acc, i : acc \o ch.pattern[((ch.reached + i) % Len(ch.pattern)) + 1], <<>>,
             [i \in 1..(pos - ch.reached) |-> i])
StepChannel(ch, rate, length, m) ==
    LET pos == Wanted(ch, rate, m)
        ons == IF pos > ch.reached THEN Played(ch, pos) ELSE <<>>
        offs == SelectSeq(ch.pending, LAMBDA e : e[1] <= ch.k)
    IN [state |-> [ch EXCEPT !.k = @ + 1, !.reached = IF pos > @ THEN pos ELSE @, !.before = ch.mr,
                             !.pending = SelectSeq(@, LAMBDA e : e[1] > ch.k)
                                         \o [i \in DOMAIN ons |-> <<ch.k + length, ons[i]>>]],
        out |-> [i \in DOMAIN offs |-> [p |-> offs[i][2], v |-> 0]] \o [i \in DOMAIN ons |-> [p |-> ons[i], v |-> 128]]]
=============================================================================
