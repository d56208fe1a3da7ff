----------------------------- MODULE MergeTrace ------------------------------
EXTENDS Merge, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES qs, t, l
tvars == <<qs, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ qs = New(Traces[t].cfg.inputs)
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* nothing is sent but by updates
TArrive == IsEvent("arrive") /\ Ev[l].outs = <<>> /\ qs' = Arrive(qs, Ev[l].i, Ev[l].ms)
TWiden == IsEvent("widen") /\ Ev[l].outs = <<>> /\ qs' = Widen(qs)
TUpdate == IsEvent("update") /\ Ev[l].outs = Sent(qs) /\ qs' = Emptied(qs) /\ Ev[l].inputs = Len(qs)
TDone == Done /\ UNCHANGED tvars
TraceNext == TArrive \/ TWiden \/ TUpdate \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
