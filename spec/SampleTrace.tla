----------------------------- MODULE SampleTrace -----------------------------
EXTENDS Sample, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES s, k, t, l
tvars == <<s, k, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1 /\ k = 0
             /\ LET c == Traces[t].cfg n == New(c.len, c.loop) IN s = Rewind(Trim(n, c.start, c.stop))
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* observed position and status
Seen(e, st) == SamePos(st, e.pos) /\ (e.playing <=> Playing(st))
TCallback == /\ IsEvent("callback") /\ UNCHANGED k
             /\ LET e == Ev[l] fs == Frames(s, e.n) IN
                  /\ e.out = [c \in 1..Cfg.channels |-> [i \in DOMAIN fs |-> 2 * Value(fs[i], c - 1)]]
                  /\ s' = Read(s, e.n)
                  /\ IF s.loop THEN SamePos(s', e.pos) /\ e.playing ELSE Seen(e, s')
TRewind == IsEvent("rewind") /\ s' = Rewind(s) /\ k' = 0 /\ Seen(Ev[l], s')
TTrim == /\ IsEvent("trim") /\ UNCHANGED k
         /\ LET e == Ev[l] b == IF e.stop = 99999 THEN s.len ELSE e.stop IN
              /\ e.ok <=> Valid(s, e.start, b)
              /\ s' = IF e.ok THEN Trim(s, e.start, b) ELSE s
              /\ Seen(e, s')
\* through the resampler; k frames so far
TRead == /\ IsEvent("read") /\ ~Crude(Cfg.mode) /\ UNCHANGED s
         /\ LET e == Ev[l]
                total == Total(Period(s), e.p, e.q)
                m == IF s.loop \/ k + e.n <= total THEN e.n ELSE total - k
                F(i) == IF s.loop THEN Wrap(s, s.start + i) ELSE s.start + i
            IN /\ e.out = [c \in 1..Cfg.channels |-> [i \in 1..m |-> LET V(j) == Value(F(j), c - 1) IN Out(e.mode, e.p, e.q, k + i - 1, V)]]
               /\ k' = k + m
TCrude == /\ IsEvent("read") /\ Crude(Cfg.mode) /\ UNCHANGED k
          /\ LET e == Ev[l]
                 need == Taken(e.n, e.p, e.q)
             IN \E fs \in {Frames(s, need)} :
                 /\ Len(e.out) = Cfg.channels
                 /\ \E m \in Given(e.n, need, Len(fs), e.p) : \A c \in 1..Cfg.channels :
                      LET V(j) == Value(j, c - 1) IN
                      /\ Len(e.out[c]) = m
                      /\ \A i \in 1..m : e.out[c][i] \in Spread(Cfg.mode, fs, m, i - 1, V)
                 /\ s' = Read(s, need)
                 /\ IF s.loop THEN SamePos(s', e.pos) /\ e.playing ELSE Seen(e, s')
TRestart == IsEvent("restart") /\ k' = 0 /\ s' = Rewind(s)
\* the speed of the reads which follow is recorded with them
TSpeed == IsEvent("speed") /\ Seen(Ev[l], s) /\ UNCHANGED <<s, k>>
TDone == Done /\ UNCHANGED tvars
TraceNext == TCallback \/ TRewind \/ TTrim \/ TRead \/ TCrude \/ TSpeed \/ TRestart \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
