--------------------------- MODULE AudioFileDesign ---------------------------
EXTENDS AudioFile, TLC
CONSTANTS B, MaxHeard
Totals == {-1, 1, 2, 3, 4, 6, 7}
VARIABLES f, heard, moved
dvars == <<f, heard, moved>>
DInit == f \in {New(t) : t \in Totals} /\ heard = <<>> /\ moved = FALSE
DControl == /\ f' \in {Play(f), Pause(f), Rewind(f), Stop(f)}
            /\ heard' = IF f'.k = f.k THEN heard ELSE <<>>
            /\ moved' = FALSE
DUpdate == /\ Len(heard) < MaxHeard
           /\ f' \in Updates(f, B)
           /\ heard' = heard \o [i \in 1..Count(f, B) |-> f.k + i - 1]
           /\ moved' = (~f.playing /\ f'.k # f.k)
DSpec == DInit /\ [][DControl \/ DUpdate]_dvars
NoFrameLost == heard = [i \in 1..f.k |-> i - 1]
StandsStill == ~moved
Within == f.total >= 0 => f.k <= f.total
\* it does not go on playing for more than one update after the end
Ends == (f.total >= 0 /\ f.k = f.total /\ f.playing) => \A g \in Updates(f, B) : ~g.playing \/ B = 0
=============================================================================
