----------------------------- MODULE MixerTrace -----------------------------
EXTENDS Mixer, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES t, l
tvars == <<mvars, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ MixerInit(Traces[t].cfg.n, Traces[t].cfg.kinds)
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* channels as seen in the code after every event: sources in order
Obs(e) == e.chans = [m \in DOMAIN chans' |-> [i \in DOMAIN chans'[m] |-> chans'[m][i].src]]
          /\ e.intact
TSig == IsEvent("sig") /\ SetSignal(Ev[l].x, Ev[l].s) /\ Obs(Ev[l])
TPlus == IsEvent("plus") /\ Plus(Ev[l].a, Ev[l].b, Ev[l].r) /\ Obs(Ev[l])
TRefused == IsEvent("refused") /\ Refused /\ Obs(Ev[l])
TConnect == IsEvent("connect") /\ Connect(Ev[l].x, Ev[l].k, Ev[l].y) /\ Obs(Ev[l])
TOwn == IsEvent("own") /\ SetOwn(Ev[l].x, Ev[l].k, Ev[l].s) /\ Obs(Ev[l])
TGain == IsEvent("gain") /\ SetGain(Ev[l].x, Ev[l].k, Ev[l].g) /\ Obs(Ev[l])
TPan == IsEvent("pan") /\ SetPan(Ev[l].x, Ev[l].k, Ev[l].p) /\ Obs(Ev[l])
TNew == IsEvent("new") /\ NewChannel(Ev[l].x) /\ Obs(Ev[l])
TUpdate == IsEvent("update") /\ Update(Ev[l].x, Ev[l].out) /\ Obs(Ev[l])
TDone == Done /\ UNCHANGED tvars
TraceNext == TSig \/ TPlus \/ TRefused \/ TConnect \/ TOwn \/ TGain \/ TPan \/ TNew \/ TUpdate \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
