----------------------------- MODULE GrooveTrace -----------------------------
EXTENDS Groove, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES own, knob, plugged, t, l
tvars == <<own, knob, plugged, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ own = Traces[t].cfg.phrasing /\ knob = <<0, 1>> /\ plugged = FALSE
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Phrasing == IF plugged THEN knob ELSE own
Near(got, r) == \E e \in {Scaled(r, 8)} : got - e \in -3..4
\* phases just below the start of the cycle are at its end
Expected(e, n) == Warp(Cfg.ws, n, Phrasing, e.p)
TOwn == IsEvent("own") /\ own' = Ev[l].x /\ UNCHANGED <<knob, plugged>>
TKnob == IsEvent("knob") /\ knob' = Ev[l].x /\ UNCHANGED <<own, plugged>>
TConnect == IsEvent("connect") /\ ~plugged /\ plugged' = TRUE /\ UNCHANGED <<own, knob>>
TDisconnect == IsEvent("disconnect") /\ plugged /\ plugged' = FALSE /\ UNCHANGED <<own, knob>>
TUpdate == IsEvent("update") /\ \E e \in {Ev[l]} : Near(e.out, Expected(e, Repeats(Cfg.beat)))
           /\ UNCHANGED <<own, knob, plugged>>
TWarp == IsEvent("warp") /\ \E e \in {Ev[l]} : Near(e.out, Expected(e, IF e.n = 0 THEN Repeats(Cfg.beat) ELSE e.n))
         /\ UNCHANGED <<own, knob, plugged>>
TDone == Done /\ UNCHANGED tvars
TraceNext == TOwn \/ TKnob \/ TConnect \/ TDisconnect \/ TUpdate \/ TWarp \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
