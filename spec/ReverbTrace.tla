----------------------------- MODULE ReverbTrace -----------------------------
EXTENDS Reverb, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES revs, t, l
tvars == <<revs, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1 /\ revs = <<>>
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Dense(pairs) == FoldLeft(LAMBDA acc, p : [acc EXCEPT ![p[1]] = p[2]], TLCEval([k \in 1..N |-> 0]), pairs)
Signal(s) == IF s.full THEN s.v ELSE IF Len(s.v) = 0 THEN <<>> ELSE Dense(s.v)
TMake == /\ IsEvent("make")
         /\ \E e \in {Ev[l]} : \E ks \in {TLCEval(Primes(e.echos, e.start))} :
            revs' = Append(revs, [ks |-> ks, g |-> TLCEval([c \in DOMAIN ks |-> Gain(ks[c], e.H)]), mix |-> IF e.mix < 0 THEN 0 ELSE IF e.mix > 4 THEN 4 ELSE e.mix, kind |-> e.kind,
                                  lines |-> [c \in DOMAIN ks |-> Empty]])
Abs(x) == IF x < 0 THEN -x ELSE x
\* out is 4 * echos * the output, tol what rounding of the gains may make
TUpdate == /\ IsEvent("update")
           /\ \E e \in {Ev[l]} : \E r \in {revs[e.i]} : \E xs \in {TLCEval(Signal(e.x))}, out \in {TLCEval(Signal(e.out))} :
              \E cs \in {TLCEval([c \in DOMAIN r.ks |-> Comb(r.kind, r.lines[c], r.ks[c], r.g[c], xs)])} :
              \E wet \in {TLCEval(WetSum(cs))} :
              /\ \A k \in 1..N : Abs(At(out, k) - (((4 - r.mix) * Len(r.ks) * At(xs, k)) + (r.mix * wet[k]))) <= e.tol
              /\ revs' = [revs EXCEPT ![e.i].lines = [c \in DOMAIN r.ks |-> cs[c].line]]
              /\ e.unchanged
TMix == IsEvent("mix") /\ revs' = [revs EXCEPT ![Ev[l].i].mix = Ev[l].mix]
TPrimes == IsEvent("primes") /\ UNCHANGED revs /\ \E e \in {Ev[l]} : e.out = Primes(e.n, e.start)
TPrime == IsEvent("prime") /\ UNCHANGED revs /\ \E e \in {Ev[l]} : e.out = IsPrime(e.n)
TDone == Done /\ UNCHANGED tvars
TraceNext == TMake \/ TUpdate \/ TMix \/ TPrimes \/ TPrime \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
