----------------------------- MODULE EuclidTrace -----------------------------
EXTENDS Euclid, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES memo, t, l
tvars == <<memo, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ memo = <<>>
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* the rhythm is right, and the one given for these arguments before
TRhythm == /\ IsEvent("rhythm")
           /\ \E e \in {Ev[l]} :
              /\ IsRhythm(e.out, e.p, e.n)
              /\ \A i \in DOMAIN memo : memo[i].p = e.p /\ memo[i].n = e.n => memo[i].out = e.out
              /\ memo' = Append(memo, [p |-> e.p, n |-> e.n, out |-> e.out])
TDone == Done /\ UNCHANGED tvars
TraceNext == TRhythm \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
