------------------------------ MODULE PolyTrace ------------------------------
EXTENDS Poly, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES s, t, l
tvars == <<s, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ s = PInit(Traces[t].cfg.voices)
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* notes given directly; the voices hear of them with the next update
TPlay == IsEvent("play") /\ s' = HandleAll(s, Ev[l].ins)
TUpdate == /\ IsEvent("update") /\ s' = HandleAll(s, Ev[l].ins)
           /\ Len(Ev[l].sounding) = Cardinality(Sounding(s'))
           /\ {Ev[l].sounding[i] : i \in DOMAIN Ev[l].sounding} = {[v |-> n.v, f |-> n.f] : n \in Sounding(s')}
           /\ ~Traces[t].cfg.slow => Ev[l].level = Level(s') /\ Ev[l].active = Cardinality(Sounding(s'))
\* after a long time
TSettle == /\ IsEvent("settle") /\ UNCHANGED s
           /\ Ev[l].level = Level(s) /\ Ev[l].active = Cardinality(Sounding(s))
TDone == Done /\ UNCHANGED tvars
TraceNext == TPlay \/ TUpdate \/ TSettle \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
