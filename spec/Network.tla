------------------------------- MODULE Network -------------------------------
(* Blocks which pass objects over a datagram socket. A datagram is a sequence *)
(* of objects in their canonical form; Bad is one which can not be decoded.   *)
EXTENDS Sequences, SequencesExt
Nothing == "nothing yet"
\* what a datagram yields
Objects(d) == d.objects
All(queue) == FoldLeft(LAMBDA acc, d : acc \o Objects(d), <<>>, queue)
LastOf(s, default) == IF s = <<>> THEN default ELSE s[Len(s)]
\* one update of a receiver: everything waiting is delivered, in order
Delivered(queue) == All(queue)
Held(value, queue) == LastOf(All(queue), value)
=============================================================================
