--------------------------- MODULE AudioFileTrace ---------------------------
EXTENDS AudioFile, Json, IOUtils, TLC
S == INSTANCE Sample
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES f, t, l
tvars == <<f, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
Region(c) == c.stop - c.start
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ LET c == Traces[t].cfg IN f = New(IF c.loop THEN -1 ELSE S!Total(Region(c), c.p, c.q))
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* reported: status and, for files which need no resampling, the position
SeenPos(pos, g) == Cfg.p = Cfg.q =>
    IF Cfg.loop THEN pos - Cfg.start \in {g.k % Region(Cfg), IF g.k % Region(Cfg) = 0 THEN Region(Cfg) ELSE g.k % Region(Cfg)}
    ELSE pos = Cfg.start + g.k
Seen(e, g) == (e.playing <=> g.playing) /\ SeenPos(e.pos, g)
TControl == \/ IsEvent("play") /\ f' = Play(f) /\ Seen(Ev[l], f')
            \/ IsEvent("pause") /\ f' = Pause(f) /\ Seen(Ev[l], f')
            \/ IsEvent("rewind") /\ f' = Rewind(f) /\ Seen(Ev[l], f')
            \/ IsEvent("stop") /\ f' = Stop(f) /\ Seen(Ev[l], f')
Frame(j) == Cfg.start + IF Cfg.loop THEN j % Region(Cfg) ELSE j
\* frame j of output channel c; mixed down: the mean of all channels
Whole(v) == v - (v % Cfg.channels)
RECURSIVE Total(_, _)
Total(j, n) == IF n = 0 THEN 0 ELSE Total(j, n - 1) + Whole(S!Value(Frame(j), n - 1))
V(j, c) == IF Cfg.mono /\ Cfg.channels > 2 THEN 2 * (Total(j, Cfg.channels) \div Cfg.channels)
           ELSE IF Cfg.mono /\ Cfg.channels = 2 THEN S!Value(Frame(j), 0) + S!Value(Frame(j), 1)
           ELSE 2 * S!Value(Frame(j), c)
\* twice the value, see Sample!Out; here the frames carry the factor
Out1(k, c) == LET W(j) == V(j, c) IN S!Out(Cfg.mode, Cfg.p, Cfg.q, k, W) \div 2
Outs == IF Cfg.mono THEN 1 ELSE Cfg.channels
TUpdate == /\ IsEvent("update")
           /\ LET e == Ev[l] n == Count(f, 256) IN
                /\ e.silent = (n = 0)
                /\ ~e.silent => e.out = [c \in 1..Outs |-> [i \in 1..256 |-> IF i <= n THEN Out1(f.k + i - 1, c - 1) ELSE 0]]
                /\ \E g \in Updates(f, 256) : f' = g /\ Seen(e, g)
TInfo == IsEvent("info") /\ UNCHANGED f /\ Ev[l].duration = Cfg.len
TDone == Done /\ UNCHANGED tvars
TraceNext == TControl \/ TUpdate \/ TInfo \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
