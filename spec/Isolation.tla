------------------------------- MODULE Isolation -------------------------------
(* Several blocks of one kind in one program. A block answers an input from   *)
(* what it has been given itself: it accumulates the values it got (its tail  *)
(* of sound, held notes, phase, ...), and answers messages waiting for it.    *)
EXTENDS Integers, Sequences, SequencesExt
Fresh == [queue |-> <<>>, memory |-> 0]
Give(b, x) == [b EXCEPT !.queue = Append(@, x)]
Answer(b) == LET m == FoldLeft(LAMBDA a, x : (2 * a + x) % 7, b.memory, b.queue)
             IN [block |-> [queue |-> <<>>, memory |-> m], out |-> m]
(* The same history for a block all alone: 0 = update, x > 0 = input x        *)
Alone(history) ==
    FoldLeft(LAMBDA acc, x : IF x > 0 THEN [acc EXCEPT !.b = Give(acc.b, x)]
                             ELSE LET r == Answer(acc.b) IN [b |-> r.block, outs |-> Append(acc.outs, r.out)],
             [b |-> Fresh, outs |-> <<>>], history)
=============================================================================
