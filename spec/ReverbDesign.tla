----------------------------- MODULE ReverbDesign -----------------------------
(* Every input into a reverb of few combs.                                     *)
EXTENDS Reverb
CONSTANTS MaxEchos, Starts, Values, MaxBuffers
VARIABLES ks, H, kind, lines, ins, outs
dvars == <<ks, H, kind, lines, ins, outs>>
Unit == 256
DInit == /\ \E n \in 1..MaxEchos, s \in Starts : ks = Primes(n, s)
         /\ H \in {0, -1, 1, 2} /\ kind \in {"backward", "forward", "echo"}
         /\ lines = [c \in DOMAIN ks |-> Empty] /\ ins = <<>> /\ outs = [c \in DOMAIN ks |-> <<>>]
DNext == /\ Len(ins) < MaxBuffers * N
         /\ \E xs \in [1..N -> {Unit * v : v \in Values}] :
            \E cs \in {TLCEval([c \in DOMAIN ks |-> Comb(kind, lines[c], ks[c], Gain(ks[c], H), Packed(xs))])} :
            /\ ins' = ins \o xs
            /\ lines' = [c \in DOMAIN ks |-> cs[c].line]
            /\ outs' = [c \in DOMAIN ks |-> outs[c] \o cs[c].out]
            /\ UNCHANGED <<ks, H, kind>>
DSpec == DInit /\ [][DNext]_dvars
Input(n) == IF n < 1 THEN 0 ELSE ins[n]
\* the difference equations, over the whole history, whatever the buffers
Equations == \A c \in DOMAIN ks : LET g == Gain(ks[c], H) IN \A n \in DOMAIN ins :
    LET back == IF n > ks[c] THEN outs[c][n - ks[c]] ELSE 0 IN
    outs[c][n] = CASE kind = "backward" -> ins[n] + Times(back, g)
                   [] kind = "forward" -> ins[n] + Times(Input(n - ks[c]), g)
                   [] kind = "echo" -> Input(n - ks[c]) + Times(back, g)
\* consecutive primes: none is left out and none comes twice
Consecutive == /\ \A i \in DOMAIN ks : IsPrime(ks[i])
               /\ \A i \in 1..(Len(ks) - 1) : ks[i] < ks[i + 1] /\ \A n \in (ks[i] + 1)..(ks[i + 1] - 1) : ~IsPrime(n)
\* longer combs are damped more: the same tail for all of them
Damped == \A c \in 1..(Len(ks) - 1) : Gain(ks[c], H) >= Gain(ks[c + 1], H)
Halves == \A h \in {1, 2, 4, 8, 16} : \A k \in 1..12 : Gain(k + h, h) - (Gain(k, h) \div 2) \in -1..1
\* without echo the reverb is dry (or silent, for echos)
NoTail == H = 0 => \A c \in DOMAIN ks : kind # "echo" => outs[c] = ins
=============================================================================
