------------------------------ MODULE TempoTrace ------------------------------
EXTENDS Tempo, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES made, t, l
tvars == <<made, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
\* made: the metres and notes created so far, as they read
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ made = <<>>
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
E == Ev[l]
Same == UNCHANGED made
\* arguments left out have an empty place
DefMetre(m) == IF m = <<>> THEN <<4, 4>> ELSE m
DefTempo(q) == IF q = <<>> THEN <<120, 1>> ELSE q
BeatOf(e) == IF e.beat = <<>> THEN DefaultBeat(DefMetre(e.metre)) ELSE e.beat
TMetre == IsEvent("metre") /\ Same /\ E.out = E.m
TClass == /\ IsEvent("class") /\ Same
          /\ E.simple = Simple(E.m) /\ E.compound = Compound(E.m) /\ E.complex = Complex(E.m)
          /\ E.irrational = Irrational(E.m) /\ ~E.fractional
          /\ E.beat = DefaultBeat(E.m) /\ E.m = E.after
          /\ Equal(E.beats, NumberOfBeats(E.m, DefaultBeat(E.m)))
TBeats == IsEvent("beats") /\ Same /\ Equal(E.out, NumberOfBeats(E.metre, E.beat))
TDuration == IsEvent("duration") /\ Same /\ Equal(E.out, Duration(E.note, DefTempo(E.tempo), BeatOf(E)))
TRate == IsEvent("rate") /\ Same /\ Equal(E.out, Inv(Duration(E.note, DefTempo(E.tempo), BeatOf(E))))
TBar == IsEvent("bar") /\ Same /\ Equal(E.out, Bar(E.tempo, DefMetre(E.metre), BeatOf(E)))
\* turns per second
TVelocity == IsEvent("velocity") /\ Same /\ Equal(E.out, Inv(Bar(E.tempo, DefMetre(E.metre), BeatOf(E))))
TFrequency == IsEvent("frequency") /\ Same /\ Equal(E.out, Frequency(E.tempo))
TPeriod == IsEvent("period") /\ Same /\ Equal(E.out, Period(E.tempo))
TPass == IsEvent("pass") /\ Same /\ E.unchanged
TDot == IsEvent("dot") /\ Same /\ Equal(E.out, Dot(E.note, E.n)) /\ Equal(E.back, E.note)
TDedot == IsEvent("dedot") /\ Same /\ Equal(E.out, Dedot(E.note, E.n)) /\ Equal(E.back, E.note)
TTuplet == /\ IsEvent("tuplet") /\ Same
           /\ \E d \in {IF E.den = 0 THEN E.num - 1 ELSE E.den} :
              /\ Equal(E.out, Tuplet(E.num, E.notes, d)) /\ E.ratio = <<E.num, d>> /\ E.kept
TConst == IsEvent("const") /\ Same /\ Equal(E.out, Dot(Base[E.base], E.dots))
\* the sum of the durations of notes which fill a bar
TFill == IsEvent("fill") /\ Same /\ Equal(E.total, Mul(Sum(E.notes), Div(Period(E.tempo), DefaultBeat(E.metre))))
         /\ Equal(E.bar, Bar(E.tempo, E.metre, DefaultBeat(E.metre)))
         /\ (Equal(Sum(E.notes), E.metre) => Equal(E.total, E.bar))
TDone == Done /\ UNCHANGED tvars
TraceNext == TMetre \/ TClass \/ TBeats \/ TDuration \/ TRate \/ TBar \/ TVelocity \/ TFrequency \/ TPeriod
             \/ TPass \/ TDot \/ TDedot \/ TTuplet \/ TConst \/ TFill \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
