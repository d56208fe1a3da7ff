--------------------------------- MODULE Midi ---------------------------------
(* Notes to MIDI messages. A note: pitch, v = velocity * 127000, on.          *)
EXTENDS Integers, Sequences
NoteOn == 144
NoteOff == 128
\* data byte for the velocity: scaled, either way of rounding, but a note which
\* is on is never silent and one which is off is
Velocity(note, b) == /\ b \in 0..127
                     /\ IF note.on THEN b > 0 /\ 1000 * b <= note.v + 1000 /\ note.v <= 1000 * b + 1000 ELSE b = 0
Message(note, channel, m) ==
    /\ Len(m) = 3
    /\ m[1] = (IF note.on THEN NoteOn ELSE NoteOff) + channel
    /\ m[2] = note.pitch
    /\ Velocity(note, m[3])
\* what a receiver makes of it
Channel(m) == m[1] % 16
IsOn(m) == m[1] \div 16 = 9 /\ m[3] > 0
IsOff(m) == m[1] \div 16 = 8 \/ (m[1] \div 16 = 9 /\ m[3] = 0)
Heard(sounding, m) == IF IsOn(m) THEN sounding \cup {<<Channel(m), m[2]>>}
                      ELSE IF IsOff(m) THEN sounding \ {<<Channel(m), m[2]>>} ELSE sounding
Played(sounding, note, channel) == IF note.on THEN sounding \cup {<<channel, note.pitch>>} ELSE sounding \ {<<channel, note.pitch>>}
=============================================================================
