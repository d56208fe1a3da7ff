------------------------------ MODULE MonoTrace ------------------------------
EXTENDS Mono, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES hs, t, l
tvars == <<hs, t, l>>
Ev == Traces[t].ev
Policy == Traces[t].cfg.policy
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ hs = {<<>>}
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* the scheduler alone: the note to play after a key event
TKey == /\ IsEvent("key")
        /\ LET k == KeyAll(hs, Ev[l].note) IN
           hs' = IF Ev[l].plays.v = 0 THEN Idle(k) ELSE Playing(Policy, k, Ev[l].plays)
        /\ hs' # {}
\* the synthesizer: keys, then one buffer. Gates: what the envelope was told.
Fold(ins) == FoldLeft(LAMBDA acc, n : KeyAll(acc, n), hs, ins)
TUpdate == /\ IsEvent("update")
           /\ LET e == Ev[l]
                  k == Fold(e.ins)
              IN /\ Len(e.gates) <= Len(e.ins)
                 /\ hs' = {h \in k : /\ e.on = (h # <<>>)
                                     /\ h = <<>> => e.level = 0
                                     /\ h # <<>> => \E n \in Preferred(Policy, h) : e.level = n.v /\ e.freq = n.f}
                 /\ hs' # {}
                 /\ e.ins # <<>> /\ (\A h \in hs : h = <<>>) /\ e.on => e.gates # <<>>
                 \* silent exactly when idle (an envelope without release)
                 /\ e.active = e.on
                 /\ e.out = e.level
TDone == Done /\ UNCHANGED tvars
TraceNext == TKey \/ TUpdate \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
