----------------------------- MODULE IsolationGen -----------------------------
(* Whose turn it is: all interleavings of two blocks up to a length, which    *)
(* are then repeated. How often each has its turn in a row does not matter.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Length
VARIABLES turns
GInit == turns = <<>>
GNext == Len(turns) < Length /\ \E i \in {0, 1} : turns' = Append(turns, i)
GSpec == GInit /\ [][GNext]_turns
Both == {turns'[i] : i \in DOMAIN turns'} = {0, 1}
Emit == Both => PrintT("SCN " \o ToJson([turns |-> turns']))
=============================================================================
