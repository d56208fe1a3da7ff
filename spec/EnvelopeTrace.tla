---------------------------- MODULE EnvelopeTrace ----------------------------
(* Gates, requests for samples and changed times of one real envelope. The    *)
(* set of envelope states that explain everything seen so far must not become *)
(* empty.                                                                     *)
EXTENDS Envelope, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES p, es, on, t, l
tvars == <<p, es, on, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ p = Traces[t].cfg.p /\ es = {Silent} /\ on = FALSE
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* the reported state, seen after every event; a lagging envelope may not have noticed yet that it is over
Seen(x) == {e \in Ready(p, x, on') : Active(e) = Ev[l].active}
TGate == /\ IsEvent("gate") /\ on' = Ev[l].on /\ UNCHANGED p
         /\ es' = Seen({Gate(p, e, Ev[l].on) : e \in Ready(p, es, on)})
         /\ es' # {}
TSample == /\ IsEvent("sample") /\ UNCHANGED <<p, on>>
           /\ Len(Ev[l].y) = Ev[l].n
           /\ es' = Seen(Fold(p, es, Ev[l].y, on))
           /\ es' # {}
\* a block handles the messages, then asks for a buffer
RECURSIVE Gates(_, _, _)
Gates(x, bs, i) == IF i > Len(bs) THEN x
                   ELSE Gates({Gate(p, e, bs[i]) : e \in Ready(p, x, IF i = 1 THEN on ELSE bs[i - 1])}, bs, i + 1)
TUpdate == /\ IsEvent("update") /\ UNCHANGED p
           /\ on' = IF Ev[l].notes = <<>> THEN on ELSE Ev[l].notes[Len(Ev[l].notes)]
           /\ Len(Ev[l].y) = Ev[l].n
           /\ Ev[l].level = Ev[l].y[Len(Ev[l].y)]
           /\ es' = Seen(Fold(p, Gates(es, Ev[l].notes, 1), Ev[l].y, on'))
           /\ es' # {}
\* other times: stages under way have no known length any more
TTimes == /\ IsEvent("times") /\ p' = Ev[l].p /\ UNCHANGED on
          /\ es' = {[e EXCEPT !.r = -1, !.n = IF @ = 0 THEN 0 ELSE 1] : e \in es}
TDone == Done /\ UNCHANGED tvars
TraceNext == TGate \/ TSample \/ TUpdate \/ TTimes \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
