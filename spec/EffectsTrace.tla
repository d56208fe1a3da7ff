---------------------------- MODULE EffectsTrace -----------------------------
EXTENDS Effects, Json, IOUtils
CONSTANT N
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
\* s: the settings in force (own and linked) and the memory of the effect
VARIABLES s, t, l
tvars == <<s, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
Kind == Cfg.kind
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ s = [own |-> Traces[t].cfg.set, far |-> Traces[t].cfg.far, linked |-> FALSE,
                     z |-> <<Rest, Rest>>, p |-> 0, q |-> 0, g |-> 0]
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Set == IF s.linked THEN s.far ELSE s.own
Abs(x) == IF x < 0 THEN -x ELSE x
TSet == IsEvent("set") /\ s' = [s EXCEPT !.own = Ev[l].set]
TFar == IsEvent("far") /\ s' = [s EXCEPT !.far = Ev[l].set]
TLink == IsEvent("link") /\ ~s.linked /\ s' = [s EXCEPT !.linked = TRUE]
TUnlink == IsEvent("unlink") /\ s.linked /\ s' = [s EXCEPT !.linked = FALSE]
Channels(e) == Len(e.x) = Len(e.out) /\ \A c \in DOMAIN e.x : Len(e.x[c]) = N /\ Len(e.out[c]) = N
TFilter == /\ IsEvent("update") /\ Kind = "filter"
           /\ \E e \in {Ev[l]} : \E co \in Designed(Cfg.bands, Set.f) :
              /\ Channels(e) /\ e.unchanged
              /\ \E r \in {TLCEval([c \in DOMAIN e.x |-> Filtered(co, s.z[c], e.x[c])])} :
                 /\ \A c \in DOMAIN e.x : \A k \in 1..N : e.out[c][k] = r[c].y[k]
                 /\ s' = [s EXCEPT !.z = [c \in DOMAIN s.z |-> IF c \in DOMAIN e.x THEN r[c].z ELSE s.z[c]]]
\* out in millionths times four
TRing == /\ IsEvent("update") /\ Kind = "ring"
         /\ \E e \in {Ev[l]} : \E lfo \in {Ramp(s.p, Set.r, N, Turn)} :
            \E q \in {ModPhases(s.q, Set.f, Set.amount, lfo, N)} :
            /\ Channels(e) /\ e.unchanged
            /\ \A c \in DOMAIN e.x : \A k \in 1..N :
                  Abs(e.out[c][k] - (e.x[c][k] * (((4 - Set.mix) * 1000000) + (Set.mix * Sin(q[k]))))) <= (4 * Abs(e.x[c][k])) + 1
            /\ s' = [s EXCEPT !.p = lfo[N + 1], !.q = q[N + 1]]
\* out in units of 1 / (8 * Full)
TTremolo == /\ IsEvent("update") /\ Kind = "tremolo"
            /\ \E e \in {Ev[l]} : \E lfo \in {Ramp(s.p, Set.r, N, Turn)} :
               \E r \in {Smooth(Set.a, s.g, [k \in 1..N |-> Pulse(lfo[k], Set.duty)])} :
               /\ Channels(e) /\ e.unchanged
               /\ \A c \in DOMAIN e.x : \A k \in 1..N :
                     Abs(e.out[c][k] - (e.x[c][k] * Envelope(r.y[k], Set.depth))) <= Abs(e.x[c][k]) * 2048
               /\ s' = [s EXCEPT !.p = lfo[N + 1], !.g = r.z]
TDone == Done /\ UNCHANGED tvars
TraceNext == TSet \/ TFar \/ TLink \/ TUnlink \/ TFilter \/ TRing \/ TTremolo \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
