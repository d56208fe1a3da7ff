--------------------------- MODULE LengthenerTrace ---------------------------
EXTENDS NoteFx, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES pending, durations, t, l
tvars == <<pending, durations, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1
             /\ pending = [i \in DOMAIN Traces[t].cfg.durations |-> <<>>]
             /\ durations = Traces[t].cfg.durations
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* the note-off carries the pitch; its frequency is of no interest
Same(out, exp) == /\ Len(out) = Len(exp)
                  /\ \A i \in DOMAIN out : out[i].p = exp[i].p /\ out[i].v = exp[i].v
                                           /\ (exp[i].v > 0 => out[i] = exp[i])
TUpdate == /\ IsEvent("update")
           /\ LET e == Ev[l]
              IN /\ Same(e.outs, LengthenOut(pending[e.b], e.now, e.ins))
                 /\ pending' = [pending EXCEPT ![e.b] = LengthenNext(@, e.now, durations[e.b], e.ins)] /\ UNCHANGED durations
TChange == IsEvent("duration") /\ durations' = [durations EXCEPT ![Ev[l].b] = Ev[l].v] /\ UNCHANGED pending
TDone == Done /\ UNCHANGED tvars
TraceNext == TUpdate \/ TChange \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
