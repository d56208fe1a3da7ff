----------------------------- MODULE DelayDesign -----------------------------
(* Buffers of N samples through a line of any length; every input.            *)
EXTENDS Delay
CONSTANTS MaxL, Values, MaxBuffers
VARIABLES L, fb, line, ins, wets
dvars == <<L, fb, line, ins, wets>>
Scale == 16
DInit == L \in 1..MaxL /\ fb \in {<<0, 1>>, <<1, 2>>, <<-1, 1>>} /\ line = Empty /\ ins = <<>> /\ wets = <<>>
DNext == /\ Len(ins) < MaxBuffers * N
         /\ \E xs \in [1..N -> {Scale * v : v \in Values}] :
            LET b == Buffer(line, L, fb, Packed(xs)) IN
            ins' = ins \o xs /\ wets' = wets \o b.wet /\ line' = b.line /\ UNCHANGED <<L, fb>>
DSpec == DInit /\ [][DNext]_dvars
\* the definition: silence, then input and feedback of the delay time before
Exact == \A n \in DOMAIN wets : wets[n] = IF n <= L THEN 0 ELSE ins[n - L] + (wets[n - L] * fb[1]) \div fb[2]
Bounded == N * Len(line) = Len(ins) /\ Len(wets) = Len(ins)
\* no feedback: only shifted
Shifted == fb = <<0, 1>> => \A n \in DOMAIN wets : n > L => wets[n] = ins[n - L]
=============================================================================
