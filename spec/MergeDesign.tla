----------------------------- MODULE MergeDesign -----------------------------
EXTENDS Merge, FiniteSets, TLC
CONSTANTS MaxInputs, MaxMessages
VARIABLES qs, log, owner, n
\* messages are numbers; owner[m] is the input message m was sent to
dvars == <<qs, log, owner, n>>
DInit == /\ \E k \in 0..MaxInputs : qs = New(k)
         /\ log = <<>> /\ owner = <<>> /\ n = 0
DArrive == \E i \in DOMAIN qs : /\ Len(owner) < MaxMessages
                                /\ owner' = Append(owner, i)
                                /\ qs' = Arrive(qs, i, <<Len(owner) + 1>>)
                                /\ UNCHANGED <<log, n>>
DWiden == Len(qs) < MaxInputs /\ qs' = Widen(qs) /\ UNCHANGED <<log, owner, n>>
DUpdate == log' = log \o Sent(qs) /\ qs' = Emptied(qs) /\ n' = n + 1 /\ n < 3 /\ UNCHANGED owner
DNext == DArrive \/ DWiden \/ DUpdate
DSpec == DInit /\ [][DNext]_dvars
Waiting == UNION {Range(qs[i]) : i \in DOMAIN qs}
Once == /\ Len(log) = Cardinality(Range(log)) /\ Range(log) \cap Waiting = {}
Order == \A j, k \in DOMAIN log : j < k /\ owner[log[j]] = owner[log[k]] => log[j] < log[k]
Bounded == \A i \in DOMAIN qs : Len(qs[i]) <= Cap
\* only messages which Cap newer ones of the same input have overtaken are lost
Lost == \A m \in DOMAIN owner : m \in Range(log) \/ m \in Waiting
        \/ Cardinality({k \in DOMAIN owner : k > m /\ owner[k] = owner[m]}) >= Cap
\* nothing waits after an update; within one update, input by input
Now == [][n' = n + 1 => /\ Sent(qs') = <<>>
                        /\ LET new == SubSeq(log', Len(log) + 1, Len(log')) IN
                           /\ Range(new) = Waiting
                           /\ \A j, k \in DOMAIN new : j < k => owner[new[j]] <= owner[new[k]]]_dvars
=============================================================================
