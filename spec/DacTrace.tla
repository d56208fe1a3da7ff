------------------------------ MODULE DacTrace ------------------------------
EXTENDS Dac, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES signals, outs, t, l
tvars == <<signals, outs, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ signals = [i \in 1..Traces[t].cfg.n |-> Silent]
             /\ outs = [i \in 1..Traces[t].cfg.outputs |-> 0]
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Samples(ids) == [c \in DOMAIN ids |-> [x \in 1..256 |-> Value(ids[c], x - 1)]]
TSet == IsEvent("set") /\ signals' = [signals EXCEPT ![Ev[l].i] = Ev[l].ids] /\ UNCHANGED outs
TCollect == /\ IsEvent("collect") /\ UNCHANGED <<signals, outs>>
            /\ IF Refused(signals, Cfg.n) THEN Ev[l].refused
               ELSE /\ ~Ev[l].refused /\ Ev[l].packed
                    /\ Ev[l].out = Samples(Taken(signals, Cfg.n))
                    \* the signals are what they were before
                    /\ Ev[l].unchanged
TInject == /\ IsEvent("inject") /\ UNCHANGED signals
           /\ outs' = Injected(outs, Ev[l].ids)
           /\ Ev[l].out = Samples(outs')
TMute == IsEvent("mute") /\ UNCHANGED signals /\ outs' = [i \in DOMAIN outs |-> 0] /\ Ev[l].out = Samples(outs')
\* are there enough channels on the sound card?
TCard == /\ IsEvent("card") /\ UNCHANGED <<signals, outs>>
         /\ Ev[l].ok <=> Ev[l].ins <= Ev[l].maxins /\ Ev[l].outs <= Ev[l].maxouts
TDone == Done /\ UNCHANGED tvars
TraceNext == TSet \/ TCollect \/ TInject \/ TMute \/ TCard \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
