------------------------------ MODULE MidiDesign ------------------------------
(* Notes played on some channels; a receiver hears every message the          *)
(* specification allows.                                                      *)
EXTENDS Midi, TLC
CONSTANTS Channels, Pitches, Velocities
VARIABLES sounding, heard, queue, played, sent
dvars == <<sounding, heard, queue, played, sent>>
ASSUME AllMessages == \A v \in Velocities : \E b \in 0..127 : Velocity([pitch |-> 0, v |-> v, on |-> v > 0], b)
DInit == sounding = {} /\ heard = {} /\ queue = <<>> /\ played = 0 /\ sent = 0
Notes == [pitch : Pitches, v : Velocities, on : BOOLEAN]
DPlay == /\ Len(queue) < 2 /\ played < 5
         /\ \E n \in Notes, c \in Channels : /\ n.on <=> n.v > 0
            /\ queue' = Append(queue, <<n, c>>) /\ sounding' = Played(sounding, n, c)
         /\ played' = played + 1 /\ UNCHANGED <<heard, sent>>
DSend == /\ queue # <<>>
         /\ LET n == queue[1][1]
                c == queue[1][2] IN
            \E b \in {x \in {0, 1, 2, 63, 64, 126, 127} : Velocity(n, x)}, st \in {NoteOn, NoteOff} :
              LET m == <<st + c, n.pitch, b>> IN Message(n, c, m) /\ heard' = Heard(heard, m)
         /\ queue' = Tail(queue) /\ sent' = sent + 1 /\ UNCHANGED <<sounding, played>>
DSpec == DInit /\ [][DPlay \/ DSend]_dvars
SameSound == queue = <<>> => heard = sounding
OncePerNote == sent + Len(queue) = played
CanSend == queue # <<>> => ENABLED DSend
=============================================================================
