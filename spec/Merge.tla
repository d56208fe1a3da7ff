-------------------------------- MODULE Merge --------------------------------
(* A message mixer: inputs with queues, one output. Every message of every    *)
(* input goes out once with the next update, input by input, in order of      *)
(* arrival. A queue keeps its newest Cap messages. Inputs may be added.       *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Cap
New(n) == [i \in 1..n |-> <<>>]
Newest(q) == IF Len(q) > Cap THEN SubSeq(q, Len(q) - Cap + 1, Len(q)) ELSE q
Arrive(qs, i, ms) == [qs EXCEPT ![i] = Newest(@ \o ms)]
Widen(qs) == Append(qs, <<>>)
Sent(qs) == FlattenSeq(qs)
Emptied(qs) == New(Len(qs))
=============================================================================
