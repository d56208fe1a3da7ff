---------------------------- MODULE KeyboardTrace ----------------------------
EXTENDS Keyboard, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES s, t, l
tvars == <<s, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1 /\ s = New(Traces[t].cfg.octave)
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Default == Cfg.temper
\* the numbers of temperaments in which the pitch has the frequency heard
InTemper(tempers, tmp) == (IF tmp = -1 THEN Default ELSE tmp) \in {tempers[i] : i \in DOMAIN tempers}
Matches(note, want) == /\ note.pitch = want.pitch
                       /\ note.velocity = 100 * want.velocity
                       /\ want.velocity > 0 => InTemper(note.tempers, want.temper)
\* key events passed on; the release of a control key may be
Others(st, k, down) == IF Repeated(st, k, down) THEN <<>> ELSE <<[key |-> k, pressed |-> down]>>
NotesFit(notes, want) == Len(notes) = Len(want) /\ \A i \in DOMAIN want : Matches(notes[i], want[i])
Notes1(st, k, down) == IF Cfg.musical THEN Sent(st, k, down) ELSE <<>>
PassedOn(st, k, down) ==
    IF ~Cfg.musical THEN {Others(st, k, down)}
    ELSE IF ~Cfg.others \/ k \in Notes THEN {<<>>}
    ELSE IF k \in Controls THEN {<<>>} \cup (IF down THEN {} ELSE {Others(st, k, down)})
    ELSE {Others(st, k, down)}
TKey == /\ IsEvent("key")
        /\ LET e == Ev[l] IN
           /\ s' = Next(s, e.key, e.down)
           /\ NotesFit(e.notes, Notes1(s, e.key, e.down))
           /\ e.keys \in PassedOn(s, e.key, e.down)
\* pressed and released before the messages are read
TPair == /\ IsEvent("pair")
         /\ LET e == Ev[l]
                s1 == Next(s, e.key, TRUE) IN
            /\ s' = Next(s1, e.key, FALSE)
            /\ NotesFit(e.notes, Notes1(s, e.key, TRUE) \o Notes1(s1, e.key, FALSE))
            /\ \E a \in PassedOn(s, e.key, TRUE), b \in PassedOn(s1, e.key, FALSE) : e.keys = a \o b
TDone == Done /\ UNCHANGED tvars
TraceNext == TKey \/ TPair \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
