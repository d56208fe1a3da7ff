----------------------------- MODULE MixerDesign -----------------------------
(* Every sequence of additions: the channels of a mixer are the signals added *)
(* to it, in order (added is kept by an independent rule: flattening of the   *)
(* expression), every addition adds exactly one channel to one mixer or makes *)
(* one with two, and mixing is linear in the signals.                         *)
EXTENDS Mixer, TLC
CONSTANTS MaxChannels
VARIABLES log               \* log: additions so far <<left, right, result>>
dvars == <<mvars, log>>
Kinds == <<[stereo |-> FALSE, inputs |-> 0], [stereo |-> TRUE, inputs |-> 1]>>
DInit == MixerInit(2, Kinds) /\ log = <<>>
TotalChannels == SumUp([m \in DOMAIN chans |-> Len(chans[m])])
DPlus == /\ TotalChannels < MaxChannels
         /\ \E a, b \in DOMAIN sig, r \in 1..(Len(sig) + 1) :
            /\ Plus(a, b, r)
            /\ log' = Append(log, <<a, b, r>>)
DNext == DPlus
DSpec == DInit /\ [][DNext]_dvars
\* what was added to x, according to the log alone
RECURSIVE AddedTo(_, _)
AddedTo(x, lg) ==
    IF lg = <<>> THEN <<>>
    ELSE LET e == Head(lg)
             own == IF e[3] # x THEN <<>>
                    ELSE IF e[1] = x THEN <<e[2]>>
                    ELSE IF e[2] = x THEN <<e[1]>>
                    ELSE <<e[1], e[2]>>
         IN own \o AddedTo(x, Tail(lg))
Srcs(x) == LET cs == SelectSeq(chans[M(x)], LAMBDA c : c.src # 0) IN [i \in DOMAIN cs |-> cs[i].src]
Exactly == \A m \in DOMAIN chans : Srcs(m + nsrc) = AddedTo(m + nsrc, log)
Created == Len(chans) = 2 + Cardinality({r \in {log[i][3] : i \in DOMAIN log} : r > 4})
=============================================================================
