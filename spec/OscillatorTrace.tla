--------------------------- MODULE OscillatorTrace ---------------------------
EXTENDS Oscillator, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES osc, t, l
tvars == <<osc, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
Kind == Cfg.kind
\* p, f: phase and frequency; mp, mf: those of the modulator
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ osc = << [p |-> Traces[t].cfg.p, f |-> Traces[t].cfg.f, mp |-> 0, mf |-> Traces[t].cfg.mf, duty |-> Traces[t].cfg.duty] >>
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
TFreq == IsEvent("freq") /\ osc' = [osc EXCEPT ![Ev[l].i].f = Ev[l].f]
TMod == IsEvent("mod") /\ osc' = [osc EXCEPT ![Ev[l].i].mf = Ev[l].f]
TDuty == IsEvent("duty") /\ osc' = [osc EXCEPT ![Ev[l].i].duty = Ev[l].duty]
TClone == IsEvent("clone") /\ osc' = Append(osc, osc[Ev[l].i])
\* the value of a sample at a phase is what the wave form says
Form(o, p, v) ==
    CASE Cfg.wave = "phase" -> v % U = p
      [] Cfg.wave = "square" -> v \in Square(p, U \div 2)
      [] Cfg.wave = "pulse" -> v \in Square(p, o.duty)
      [] Cfg.wave = "falling" -> -v \in Square(p, o.duty)
      [] Cfg.wave = "triangle" -> v = Triangle(p)
TUpdate ==
    /\ IsEvent("update")
    /\ LET e == Ev[l]
           o == osc[e.i]
           scalar == Kind \in {"phasor", "lfo1"}
           q == IF scalar THEN <<o.p, Stepped(o.p, o.f)>> ELSE Phases(o.p, o.f)
           m == IF Kind = "fm" THEN Phases(o.mp, o.mf) ELSE <<>>
           last == Len(q) IN
       /\ Len(e.out) = last - 1
       /\ \A k \in 1..(last - 1) : IF Kind = "fm" THEN e.out[k] % U = (q[k] + Cfg.intensity * m[k]) % U ELSE Form(o, q[k], e.out[k])
       /\ e.inturn /\ e.cur % U = q[last]
       /\ osc' = [osc EXCEPT ![e.i].p = q[last], ![e.i].mp = IF Kind = "fm" THEN m[last] ELSE @]
\* phases of all oscillators, whatever was updated before
TPeek == IsEvent("peek") /\ UNCHANGED osc
         /\ Len(Ev[l].cur) = Len(osc) /\ \A i \in DOMAIN osc : Ev[l].cur[i] % U = osc[i].p
\* chirp: frequencies between neighbouring samples, buffers put together,
\* stay between the first and the last frequency and approach the last one
TChirp == /\ IsEvent("chirp") /\ UNCHANGED osc
          /\ LET e == Ev[l]
                 up == e.f0 <= e.f1
                 lo == IF up THEN e.f0 ELSE e.f1
                 hi == IF up THEN e.f1 ELSE e.f0 IN
             /\ \A k \in DOMAIN e.freqs : e.freqs[k] >= lo - 2 /\ e.freqs[k] <= hi + 2
             /\ \A k \in 1..(Len(e.freqs) - 1) : IF up THEN e.freqs[k + 1] >= e.freqs[k] - 2 ELSE e.freqs[k + 1] <= e.freqs[k] + 2
             /\ \A k \in DOMAIN e.freqs : k > e.samples + 1 => Abs(e.freqs[k] - e.f1) <= 2
             /\ \A k \in DOMAIN e.late : Abs(e.late[k] - e.f1) <= 2
             /\ e.again
TDone == Done /\ UNCHANGED tvars
TraceNext == TFreq \/ TMod \/ TDuty \/ TClone \/ TUpdate \/ TPeek \/ TChirp \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
