----------------------------- MODULE BounceTrace -----------------------------
EXTENDS Bounce, Json, IOUtils, TLC, FiniteSets
S == INSTANCE SequencesExt
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES k, t, l
tvars == <<k, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
B == 256
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ k = 0
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* the value of frame x of channel c, in 64ths
Value(x, c) == IF Cfg.silent THEN 0 ELSE LET y == x % 31 IN (((y * y) + 3 * y * (c + 1) + Cfg.seed) % 31) - 15
Limit == Buffers(Cfg.D, B, Cfg.live)
\* the run is over before its time
Mismatch == Cfg.mismatch >= 0
Stopped == Cfg.live /\ Cfg.interrupt >= 0
Last == LET a == IF Mismatch /\ Cfg.mismatch < Limit THEN Cfg.mismatch + 1 ELSE Limit
        IN IF Stopped /\ Cfg.interrupt < a THEN Cfg.interrupt ELSE a
Failed == Mismatch /\ Last = Cfg.mismatch + 1
Captured == IF Failed THEN Last - 1 ELSE Last
TBuffer == /\ IsEvent("buffer") /\ k < Last /\ k' = k + 1
           /\ LET e == Ev[l] IN
                /\ e.clock = 1000 * k
                /\ \A i \in DOMAIN e.calls : e.calls[i] = 1
                \* what a live run hands to the sound card
                /\ (Cfg.live /\ ~(Failed /\ k = Cfg.mismatch)) =>
                      e.out = [c \in 1..Cfg.channels |-> [i \in 1..B |-> Value(k * B + i - 1, c - 1) * Gain(k * B + i - 1, Cfg.D, Cfg.F)]]
                /\ (Cfg.live /\ Failed /\ k = Cfg.mismatch) => \A c \in DOMAIN e.out : \A i \in DOMAIN e.out[c] : e.out[c][i] = 0
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(f, n) == S!FoldLeft(LAMBDA m, x : IF f[x] > m THEN f[x] ELSE m, 0, [x \in 1..n |-> x])
\* the file holds the captured frames in order, scaled as a whole to full range
Matches(e, n) ==
    /\ Len(e.frames) = Cfg.channels
    /\ e.rate = 44100
    /\ LET V == [c \in 1..Cfg.channels |-> [x \in 1..n |-> Value(x - 1, c - 1) * Gain(x - 1, Cfg.D, Cfg.F)]]
           P == MaxOf([c \in 1..Cfg.channels |-> MaxOf([x \in 1..n |-> Abs(V[c][x])], n)], Cfg.channels)
       IN \A c \in 1..Cfg.channels :
            /\ Len(e.frames[c]) = n
            /\ \A x \in 1..n : Abs(e.frames[c][x] * P - 32767 * V[c][x]) <= P + (P \div 8)
TEnd == /\ IsEvent("end") /\ UNCHANGED k /\ k = Last
        /\ LET e == Ev[l] n == Captured * B IN
             /\ Failed => e.error          \* raised, or logged by a live run
             /\ ~Failed => ~e.error
             /\ ~Cfg.file => ~e.exists
             /\ e.held = 0                 \* the sound card is released
             /\ (Cfg.file /\ ~Failed) => e.exists
             /\ e.exists => Matches(e, n)
TDone == Done /\ UNCHANGED tvars
TraceNext == TBuffer \/ TEnd \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
