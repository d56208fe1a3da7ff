--------------------------------- MODULE Dac ---------------------------------
(* Audio output and input. A signal is a sequence of channels; a channel is   *)
(* an identity (0 is silence).                                                *)
EXTENDS Integers, Sequences
Silent == <<0>>
RECURSIVE Flatten(_)
Flatten(signals) == IF signals = <<>> THEN <<>> ELSE Head(signals) \o Flatten(Tail(signals))
Refused(signals, n) == Len(Flatten(signals)) < n
Taken(signals, n) == SubSeq(Flatten(signals), 1, n)
\* input block with n outputs and m recorded channels
Injected(outs, channels) == [i \in DOMAIN outs |-> IF i <= Len(channels) THEN channels[i] ELSE outs[i]]
\* frame x of a channel
Value(id, x) == IF id = 0 THEN 0 ELSE ((id * 40503 + x * 7919 + ((x * x) % 127)) % 65521) - 32760
=============================================================================
