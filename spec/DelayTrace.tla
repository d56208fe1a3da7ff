------------------------------ MODULE DelayTrace ------------------------------
EXTENDS Delay, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES lines, mix, fbs, outs, t, l
tvars == <<lines, mix, fbs, outs, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ lines = [c \in DOMAIN Traces[t].cfg.L |-> Empty]
             /\ mix = Traces[t].cfg.mix /\ fbs = Traces[t].cfg.fb
             /\ outs = [c \in 1..Traces[t].cfg.outs |-> 0]
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* signals are given as <<sample, value>> pairs, the others are silent
Dense(pairs) == FoldLeft(LAMBDA acc, p : [acc EXCEPT ![p[1]] = p[2]], TLCEval([k \in 1..N |-> 0]), pairs)
Signal(s) == IF s.full THEN s.v ELSE IF Len(s.v) = 0 THEN <<>> ELSE Dense(s.v)
Signals(ss) == TLCEval([c \in DOMAIN ss |-> TLCEval(Signal(ss[c]))])
\* what channel c of the effect gets
Input(ins, c) == IF Cfg.kind = "mono" THEN Mean(ins) ELSE IF Len(ins) = 1 THEN ins[1] ELSE ins[c]
TUpdate == /\ IsEvent("update") /\ UNCHANGED <<mix, fbs, outs>>
           /\ \E ins \in {Signals(Ev[l].ins)}, out \in {Signals(Ev[l].out)} :
              \E xs \in {TLCEval([c \in DOMAIN lines |-> TLCEval(Input(ins, c))])} :
              \E bs \in {TLCEval([c \in DOMAIN lines |-> Buffer(lines[c], Cfg.L[c], fbs[c], xs[c])])} :
              /\ Len(out) = Len(lines)
              /\ \A c \in DOMAIN lines : \A k \in 1..N : At(out[c], k) = Blended(At(xs[c], k), bs[c].wet[k], mix)
              /\ lines' = [c \in DOMAIN lines |-> bs[c].line]
              /\ Ev[l].unchanged
TMix == IsEvent("mix") /\ mix' = Ev[l].mix /\ UNCHANGED <<lines, fbs, outs>>
TFeedback == IsEvent("feedback") /\ fbs' = [fbs EXCEPT ![1] = Ev[l].fb] /\ UNCHANGED <<lines, mix, outs>>
\* is a delay time accepted? times in milliseconds, 2000 at most
TRange == IsEvent("range") /\ UNCHANGED <<lines, mix, fbs, outs>> /\ (Ev[l].ok <=> \A i \in DOMAIN Ev[l].ms : Ev[l].ms[i] <= 2000)
\* splitting and combining: channels have identities, 0 is silence
TSplit == /\ IsEvent("split") /\ UNCHANGED <<lines, mix, fbs>>
          /\ outs' = Split(Ev[l].ids, outs) /\ Ev[l].out = outs'
TCombine == /\ IsEvent("combine") /\ UNCHANGED <<lines, mix, fbs, outs>> /\ Ev[l].out = Ev[l].ids
TDone == Done /\ UNCHANGED tvars
TraceNext == TUpdate \/ TMix \/ TFeedback \/ TRange \/ TSplit \/ TCombine \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
