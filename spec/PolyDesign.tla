----------------------------- MODULE PolyDesign -----------------------------
EXTENDS Poly, TLC
CONSTANTS K, Pitches, MaxEvents
VARIABLES s, log
dvars == <<s, log>>
DInit == s = PInit(K) /\ log = <<>>
DNext == \E p \in Pitches, v \in 0..1 :
    /\ Len(log) < MaxEvents
    /\ LET n == [p |-> p, v |-> v, f |-> Len(log) + 1] IN s' = Handle(s, n) /\ log' = Append(log, n)
DSpec == DInit /\ [][DNext]_dvars
\* from the history alone: a note sounds if it is one of the last K started and was not released since
OnsAfter(i) == Cardinality({k \in (i + 1)..Len(log) : log[k].v > 0})
Released(i) == \E k \in (i + 1)..Len(log) : log[k].v = 0 /\ log[k].p = log[i].p
Expected == {log[i] : i \in {i \in DOMAIN log : log[i].v > 0 /\ OnsAfter(i) < K /\ ~Released(i)}}
OwnVoice == Sounding(s) = Expected
EachOnce == Cardinality(Sounding(s)) = Cardinality({i \in DOMAIN s.voices : s.voices[i] # None})
AllReleasedSilent == (\A i \in DOMAIN log : log[i].v > 0 => Released(i)) => Sounding(s) = {} /\ Level(s) = 0
=============================================================================
