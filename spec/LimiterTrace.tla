---------------------------- MODULE LimiterTrace ----------------------------
EXTENDS NoteFx, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES sounding, max, t, l
tvars == <<sounding, max, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ sounding = [i \in DOMAIN Traces[t].cfg.max |-> <<>>] /\ max = Traces[t].cfg.max
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Same(out, exp) == /\ Len(out) = Len(exp)
                  /\ \A i \in DOMAIN out : out[i].p = exp[i].p /\ out[i].v = exp[i].v
                                           /\ (exp[i].v > 0 => out[i] = exp[i])
TUpdate == /\ IsEvent("update")
           /\ LET e == Ev[l]
                  r == Limit(sounding[e.b], e.ins, max[e.b])
              IN Same(e.outs, r.out) /\ sounding' = [sounding EXCEPT ![e.b] = r.sounding] /\ UNCHANGED max
TChange == IsEvent("max") /\ max' = [max EXCEPT ![Ev[l].b] = Ev[l].v] /\ UNCHANGED sounding
TDone == Done /\ UNCHANGED tvars
TraceNext == TUpdate \/ TChange \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
