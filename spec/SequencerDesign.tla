--------------------------- MODULE SequencerDesign ---------------------------
(* One channel whose micro rhythm is exchanged, rephrased and removed at any  *)
(* time.                                                                      *)
EXTENDS Sequencer, TLC
CONSTANTS Lengths, MaxK, NoteLength
VARIABLES ch, rate, log, sounding, calm
dvars == <<ch, rate, log, sounding, calm>>
Rates == {<<2, 7>>, <<3, 5>>, <<8, 7>>}
Rhythms == {[ws |-> <<2, 1>>, n |-> 1, xn |-> 1, xd |-> 1], [ws |-> <<1, 2>>, n |-> 1, xn |-> 1, xd |-> 2],
            [ws |-> <<1, 3>>, n |-> 2, xn |-> 1, xd |-> 1], [ws |-> <<1, 2>>, n |-> 1, xn |-> 1, xd |-> 1]}
PatternOf(len) == [i \in 1..len |-> <<i>>]
DInit == /\ \E len \in Lengths : ch = Channel(PatternOf(len))
         /\ rate \in Rates /\ log = <<>> /\ sounding = <<>> /\ calm = 0
Change == /\ ch.k < MaxK
          /\ \/ \E m \in Rhythms : ch' = Apply(ch, m)
             \/ ch.on /\ ch' = Reset(ch)
          /\ calm' = -1 /\ UNCHANGED <<rate, log, sounding>>
Update == /\ ch.k < MaxK
          /\ LET r == StepChannel(ch, rate, NoteLength, ch.mr)
                 ons == SelectSeq(r.out, LAMBDA n : n.v > 0)
             IN /\ ch' = r.state
                /\ log' = log \o [i \in DOMAIN ons |-> ons[i].p]
                /\ sounding' = SelectSeq(sounding, LAMBDA e : ch.k < e + NoteLength) \o [i \in DOMAIN ons |-> ch.k]
                /\ calm' = IF ch.on THEN -1 ELSE IF calm < 0 THEN ch.k ELSE calm
          /\ UNCHANGED rate
DNext == Change \/ Update
DSpec == DInit /\ [][DNext]_dvars
\* every step exactly once, in pattern order
InOrder == \A i \in DOMAIN log : log[i] = ((i - 1) % Len(ch.pattern)) + 1
Counted == Len(log) = ch.reached + 1
\* steps stay within their cycle
Cycle(k) == (k * rate[1]) \div (rate[2] * Len(ch.pattern))
WithinCycle == ch.k > 1 => /\ ch.reached < (Cycle(ch.k - 1) + 1) * Len(ch.pattern)
                           /\ ch.reached >= Cycle(ch.k - 2) * Len(ch.pattern)
\* on time without a micro rhythm, from one cycle after its removal at the latest
OnTime == (~ch.on /\ calm = 0 /\ ch.k > 0) => ch.reached = Position(rate, Len(ch.pattern), ch.k - 1, Straight)
Restored == (~ch.on /\ calm > 0 /\ ch.k > 0 /\ Cycle(ch.k - 1) > Cycle(calm)) => ch.reached = Position(rate, Len(ch.pattern), ch.k - 1, Straight)
\* every note-on has its note-off pending until it is due
Silenced == Len(ch.pending) = Len(sounding) /\ \A i \in DOMAIN ch.pending : ch.pending[i][1] >= ch.k
=============================================================================
