------------------------------ MODULE PieceTrace ------------------------------
EXTENDS Piece, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES chs, synths, pasts, mixes, t, l
tvars == <<chs, synths, pasts, mixes, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
N == Len(Cfg.synths)
Rate(i) == LET r == RateOf(Cfg) IN <<r[1], r[2]>>
Groove(i) == LET m == Cfg.grooves[i] IN IF m.n = 0 THEN Channel(Cfg.patterns[i]) ELSE Apply(Channel(Cfg.patterns[i]), m)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ chs = [i \in DOMAIN Traces[t].cfg.patterns |-> Groove(i)]
             /\ synths = [i \in 1..N |-> Synth(Cfg.synths[i].kind, Cfg.synths[i].max)]
             /\ pasts = [i \in 1..N |-> <<>>]
             /\ mixes = <<>>
\* what each channel of the sound card plays: gains in quarters, mixed (the
\* average; here N times that) or separate
Level(i, x) == Cfg.synths[i].gain * x
Card(xs) == IF Cfg.mix THEN <<FoldLeft(LAMBDA a, i : a + Level(i, xs[i]), 0, [i \in 1..N |-> i])>>
            ELSE [i \in 1..N |-> Level(i, xs[i])]
\* the first synthesizer once more, without echo and gain (as loud)
Tap(x) == IF Cfg.tap THEN <<8 * (IF Cfg.mix THEN N ELSE 1) * x>> ELSE <<>>
Messages(rs, s) == FoldLeft(LAMBDA acc, i : acc \o rs[i].out, <<>>, Cfg.synths[s].hears)
TCycle == /\ IsEvent("cycle")
          /\ \E rs \in {[i \in DOMAIN chs |-> StepChannel(chs[i], Rate(i), NoteLength(Cfg, Rate(i)), chs[i].mr)]} :
             \E ss \in {[i \in 1..N |-> Play(synths[i], Messages(rs, i))]} :
             \E xs \in {[i \in 1..N |-> Heard(ss[i])]} :
                /\ chs' = [i \in DOMAIN chs |-> rs[i].state]
                /\ synths' = ss
                /\ pasts' = [i \in 1..N |-> Append(pasts[i], xs[i])]
                /\ mixes' = Append(mixes, Card([i \in 1..N |-> Echoed(pasts[i], xs[i], Cfg.synths[i].echo)]) \o Tap(xs[1]))
Abs(x) == IF x < 0 THEN -x ELSE x
\* the file is scaled as a whole to full range
TFile == /\ IsEvent("file") /\ UNCHANGED <<chs, synths, pasts, mixes>>
         /\ \E e \in {Ev[l]} : \E peak \in {Max({0} \cup UNION {{mixes[k][c] : c \in DOMAIN mixes[k]} : k \in DOMAIN mixes})} :
              /\ e.steady /\ e.rate = 44100
              /\ Len(e.buffers) = Len(mixes)
              /\ \A k \in DOMAIN mixes :
                   /\ Len(e.buffers[k]) = Len(mixes[k])
                   /\ \A c \in DOMAIN mixes[k] :
                        IF peak = 0 THEN e.buffers[k][c] = 0
                        ELSE Abs((e.buffers[k][c] * peak) - (mixes[k][c] * 32767)) <= 2 * peak
TDone == Done /\ UNCHANGED tvars
TraceNext == TCycle \/ TFile \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
