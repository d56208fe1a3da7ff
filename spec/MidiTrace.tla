------------------------------ MODULE MidiTrace ------------------------------
EXTENDS Midi, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES queues, t, l
tvars == <<queues, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ queues = [b \in DOMAIN Traces[t].cfg.channels |-> <<>>]
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
TNote == IsEvent("note") /\ queues' = [queues EXCEPT ![Ev[l].b] = Append(@, Ev[l].note)]
TUpdate == /\ IsEvent("update")
           /\ LET b == Ev[l].b
                  q == queues[b]
                  m == Ev[l].sent IN
              /\ Len(m) = Len(q)
              /\ \A i \in DOMAIN q : Message(q[i], Cfg.channels[b], m[i])
              /\ queues' = [queues EXCEPT ![b] = <<>>]
TMessage == IsEvent("message") /\ UNCHANGED queues /\ Message(Ev[l].note, Ev[l].channel, Ev[l].sent)
TDone == Done /\ UNCHANGED tvars
TraceNext == TNote \/ TUpdate \/ TMessage \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
