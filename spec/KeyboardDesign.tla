--------------------------- MODULE KeyboardDesign ---------------------------
(* Any presses, releases and repetitions on some of the keys.                 *)
EXTENDS Keyboard, FiniteSets
CONSTANTS Keys, MaxChanges
VARIABLES s, sounding, last, n
dvars == <<s, sounding, last, n>>
\* sounding: notes on minus notes off per key, as a listener counts them
DInit == \E o \in MinOctave..MaxOctave : s = New(o) /\ sounding = [k \in Keys |-> <<>>] /\ last = <<>> /\ n = 0
DEvent == \E k \in Keys, down \in BOOLEAN :
    /\ (k \in Controls) => n < MaxChanges
    /\ s' = Next(s, k, down) /\ last' = Sent(s, k, down)
    /\ n' = IF k \in Controls /\ down THEN n + 1 ELSE n
    /\ sounding' = IF last' = <<>> THEN sounding
                   ELSE [sounding EXCEPT ![k] = IF last'[1].velocity > 0 THEN Append(@, last'[1].pitch) ELSE SelectSeq(@, LAMBDA p : p # last'[1].pitch)]
DSpec == DInit /\ [][DEvent]_dvars
ValidPitch == \A i \in DOMAIN last : last[i].pitch \in 0..127
\* every note off ends a note which sounds; nothing hangs
NoHanging == \A k \in Keys : (sounding[k] # <<>>) <=> (k \in s.held /\ k \in Notes)
AtMostOne == \A k \in Keys : Len(sounding[k]) <= 1
Quiet == s.held = {} => \A k \in Keys : sounding[k] = <<>>
SettingsValid == s.octave \in MinOctave..MaxOctave /\ s.velocity \in 1..10
\* notes of one octave change only with the octave
Once == [][\A k \in Keys : (k \in s.held /\ k \in s'.held /\ k \in Notes) => s'.active[k] = s.active[k]]_dvars
=============================================================================
