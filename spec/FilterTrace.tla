----------------------------- MODULE FilterTrace -----------------------------
(* Several filters side by side; every chunk processed is an event.          *)
EXTENDS Filter, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES fs, t, l
tvars == <<fs, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1
    /\ fs = [i \in DOMAIN Traces[t].cfg.filters |->
               LET c == Traces[t].cfg.filters[i] IN NewFilter(c.kind, c.k, c.num, c.den)]
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
TFilter == /\ IsEvent("filter")
           /\ LET e == Ev[l]
                  r == Chunk(fs[e.f], e.x)
              IN /\ e.y = r[1]
                 /\ fs' = [fs EXCEPT ![e.f] = r[2]]
TAlpha == /\ IsEvent("alpha")
          /\ fs' = [fs EXCEPT ![Ev[l].f].num = Ev[l].num, ![Ev[l].f].den = Ev[l].den]
TDone == Done /\ UNCHANGED tvars
TraceNext == TFilter \/ TAlpha \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
