--------------------------- MODULE SequencerTrace ---------------------------
EXTENDS Sequencer, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES chs, t, l
tvars == <<chs, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* updates until a note-off is due
NoteLength(c, rate) == IF c.abs > 0 THEN Ceil(c.abs, 2) ELSE Ceil(c.rel[1] * rate[2], c.rel[2] * rate[1])
\* every channel has its own speed and note length
Own(pattern, rate, c) == Channel(pattern) @@ [rate |-> rate, len |-> NoteLength(c, rate)]
TraceInit == t \in DOMAIN Traces /\ l = 1
             /\ chs = [i \in DOMAIN Traces[t].cfg.patterns |-> Own(Traces[t].cfg.patterns[i], RateOf(Cfg), Cfg)]
Expected(rs) == IF Cfg.split THEN [i \in DOMAIN rs |-> rs[i].out]
                ELSE <<FoldLeft(LAMBDA acc, r : acc \o r.out, <<>>, rs)>>
TUpdate == /\ IsEvent("update")
           /\ LET rs(old) == [i \in DOMAIN chs |-> StepChannel(chs[i], chs[i].rate, chs[i].len, IF old THEN chs[i].before ELSE chs[i].mr)]
              IN \E old \in BOOLEAN :
                    /\ Ev[l].outs = Expected(rs(old))
                    /\ chs' = [i \in DOMAIN chs |-> rs(old)[i].state]
\* n updates without any message
RECURSIVE Quiet(_, _)
Quiet(cs, n) ==
    IF n = 0 THEN cs
    ELSE LET rs == [i \in DOMAIN cs |-> StepChannel(cs[i], cs[i].rate, cs[i].len, cs[i].mr)]
         IN IF \A i \in DOMAIN rs : rs[i].out = <<>> THEN Quiet([i \in DOMAIN cs |-> rs[i].state], n - 1) ELSE <<>>
TQuiet == /\ IsEvent("quiet")
          /\ LET q == Quiet(chs, Ev[l].n) IN q # <<>> /\ chs' = q
TApply == IsEvent("apply") /\ chs' = [chs EXCEPT ![Ev[l].ch] = Apply(@, Ev[l].mr)]
TReset == IsEvent("reset") /\ chs' = [chs EXCEPT ![Ev[l].ch] = Reset(@)]
TPhrasing == IsEvent("phrasing") /\ chs' = [chs EXCEPT ![Ev[l].ch].mr.xn = Ev[l].xn]
TChannel == /\ IsEvent("channel")
            /\ LET e == Ev[l]
                   r == RateOf(Cfg) IN
               /\ chs' = Append(chs, IF "scale" \in DOMAIN e THEN Own(e.pattern, <<r[1] * e.scale[1], r[2] * e.scale[2]>>, e) ELSE Own(e.pattern, r, Cfg))
               /\ e.channels = Len(chs) + 1
TRandom == /\ IsEvent("random") /\ UNCHANGED chs
           /\ LET e == Ev[l] IN Len(e.values) = e.length
                /\ \A i \in DOMAIN e.values : e.values[i] >= e.min /\ e.values[i] <= e.max
                       /\ (i > e.period => e.values[i] = e.values[i - e.period])
TDone == Done /\ UNCHANGED tvars
TraceNext == TUpdate \/ TQuiet \/ TApply \/ TReset \/ TPhrasing \/ TChannel \/ TRandom \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
