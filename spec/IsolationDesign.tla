---------------------------- MODULE IsolationDesign ----------------------------
EXTENDS Isolation, FiniteSets, TLC
CONSTANTS Blocks, MaxOps
VARIABLES blocks, histories, outs
dvars == <<blocks, histories, outs>>
DInit == blocks = <<>> /\ histories = <<>> /\ outs = <<>>
Total == FoldLeft(LAMBDA a, h : a + Len(h), 0, histories)
New == /\ Len(blocks) < Blocks
       /\ blocks' = Append(blocks, Fresh) /\ histories' = Append(histories, <<>>) /\ outs' = Append(outs, <<>>)
Input(i, x) == /\ Total < MaxOps
               /\ blocks' = [blocks EXCEPT ![i] = Give(@, x)]
               /\ histories' = [histories EXCEPT ![i] = Append(@, x)] /\ UNCHANGED outs
Update(i) == /\ Total < MaxOps
             /\ \E r \in {Answer(blocks[i])} : blocks' = [blocks EXCEPT ![i] = r.block] /\ outs' = [outs EXCEPT ![i] = Append(@, r.out)]
             /\ histories' = [histories EXCEPT ![i] = Append(@, 0)]
DNext == New \/ \E i \in DOMAIN blocks : Update(i) \/ \E x \in 1..2 : Input(i, x)
DSpec == DInit /\ [][DNext]_dvars
\* in whatever way the histories are interleaved, every block behaves as if it was alone
AsIfAlone == \A i \in DOMAIN blocks : LET a == Alone(histories[i]) IN outs[i] = a.outs /\ blocks[i] = a.b
OthersStay == [][\A i \in DOMAIN blocks : histories'[i] = histories[i] => blocks'[i] = blocks[i] /\ outs'[i] = outs[i]]_dvars
=============================================================================
