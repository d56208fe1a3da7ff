------------------------------ MODULE FlowTrace -------------------------------
EXTENDS Flow, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
\* due: time of the next cycle of the main loop, -1 outside of it
VARIABLES due, t, l
tvars == <<fvars, due, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1 /\ due = -1 /\ FlowInit(Traces[t].cfg.n)
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
TConnect == IsEvent("connect") /\ Patched(Ev[l].a, Ev[l].o, Ev[l].b, Ev[l].i) /\ UNCHANGED due
TDisconnect == IsEvent("disconnect") /\ Unpatched(Ev[l].a, Ev[l].o, Ev[l].b, Ev[l].i) /\ UNCHANGED due
TOwn == IsEvent("own") /\ SetOwn(Ev[l].b, Ev[l].v) /\ UNCHANGED due
TInown == IsEvent("inown") /\ SetInput(Ev[l].b, Ev[l].i, Ev[l].v) /\ UNCHANGED due
TRebuild == IsEvent("rebuild") /\ Rebuild(Ev[l].b, Ev[l].level, Ev[l].v) /\ UNCHANGED due
TSend == IsEvent("send") /\ SendFrom(Ev[l].b, Ev[l].m) /\ UNCHANGED due
TPush == IsEvent("push") /\ PushTo(Ev[l].b, Ev[l].m) /\ UNCHANGED due
TOrder == IsEvent("order") /\ Ordered(ToSet(Ev[l].starts), Ev[l].order) /\ UNCHANGED due
\* the main loop falls asleep at some time, and has slept for a while
TTick == IsEvent("tick") /\ due' = Due(Ev[l].now) /\ Ev[l].slept = due' - Ev[l].now /\ UNCHANGED fvars
TCycle == IsEvent("cycle") /\ Cycle(Ev[l].outs, Ev[l].got) /\ Ev[l].clock = due /\ due' = -1
TDone == Done /\ UNCHANGED tvars
TraceNext == TConnect \/ TDisconnect \/ TOwn \/ TInown \/ TRebuild \/ TSend \/ TPush \/ TOrder \/ TTick \/ TCycle \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
