----------------------------- MODULE PieceDesign -----------------------------
(* One channel over a limiter into a synthesizer, against the plain meaning   *)
(* of its score.                                                              *)
EXTENDS Piece, TLC
CONSTANTS Lengths, MaxK
Rates == {<<2, 7>>, <<3, 5>>, <<5, 7>>, <<1, 11>>}
VARIABLES ch, rate, len, synth, past
dvars == <<ch, rate, len, synth, past>>
Patterns == {<< <<60>>, <<61>>, <<62>> >>, << <<62>>, <<>>, <<60, 61>> >>, << <<60, 63>>, <<64, 62, 61>>, <<>>, <<>> >>, << <<60>> >>}
DInit == /\ \E p \in Patterns : ch = Channel(p)
         /\ rate \in Rates /\ len \in Lengths /\ past = <<>>
         /\ \E kind \in {"poly", "highest", "lowest"}, max \in 0..2 : synth = Synth(kind, max)
Update == /\ ch.k < MaxK
          /\ LET r == StepChannel(ch, rate, len, Straight)
                 s == Play(synth, r.out)
             IN ch' = r.state /\ synth' = s /\ past' = Append(past, Heard(s))
          /\ UNCHANGED <<rate, len>>
DSpec == DInit /\ [][Update]_dvars
\* the notes of the score <<start, pitch>> in their order; now = the last update
now == ch.k - 1
Pos(u) == Position(rate, Len(ch.pattern), u, Straight)
Start(j) == CHOOSE u \in 0..now : Pos(u) >= j /\ (u = 0 \/ Pos(u - 1) < j)
Notes == IF ch.k = 0 THEN <<>>
         ELSE FoldLeft(LAMBDA acc, j : acc \o [i \in DOMAIN ch.pattern[(j % Len(ch.pattern)) + 1] |-> <<Start(j), ch.pattern[(j % Len(ch.pattern)) + 1][i]>>],
                       <<>>, [j \in 1..(Pos(now) + 1) |-> j - 1])
Alone == len * rate[1] < Len(ch.pattern) * rate[2]       \* no note meets itself
Score == {Notes[i][2] : i \in {j \in DOMAIN Notes : Notes[j][1] + len > now}}
\* without a limiter exactly the notes of the score sound
AsWritten == (synth.max = 0 /\ Alone) =>
                IF synth.kind = "poly" THEN Sounding(synth) = Score
                ELSE Cardinality(Sounding(synth)) = (IF Score = {} THEN 0 ELSE 1) /\ Sounding(synth) \subseteq Score
                     /\ \A p \in Sounding(synth), q \in Score : IF synth.kind = "highest" THEN q <= p ELSE q >= p
\* a limiter lets the last ones sound on
Latest(n) == {Notes[i][2] : i \in {j \in DOMAIN Notes : j > Len(Notes) - n}}
Bounded == synth.max > 0 => /\ Cardinality(Sounding(synth)) <= synth.max
                            /\ synth.kind = "poly" => Sounding(synth) \subseteq Latest(synth.max)
LimitKeeps == (synth.max > 0 /\ synth.kind = "poly" /\ Cardinality(Latest(synth.max)) = synth.max /\ Len(Notes) >= synth.max) => Sounding(synth) = Latest(synth.max)
\* an echo of something at the right time only
Echoes == \A m \in 1..3 : Len(past) > 0 => LET x == past[Len(past)] earlier == SubSeq(past, 1, Len(past) - 1) IN
            Echoed(earlier, x, m) - x = (IF Len(past) > m THEN past[Len(past) - m] ELSE 0)
=============================================================================
