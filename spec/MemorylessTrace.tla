--------------------------- MODULE MemorylessTrace ----------------------------
EXTENDS Memoryless, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
\* gain: own value and linked one of the gain block under test
VARIABLES gain, amps, t, l
tvars == <<gain, amps, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1 /\ gain = [own |-> Traces[t].cfg.gain, far |-> <<0>>, linked |-> FALSE] /\ amps = <<>>
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Same == UNCHANGED <<gain, amps>>
TOwn == IsEvent("own") /\ gain' = [gain EXCEPT !.own = Ev[l].g] /\ UNCHANGED amps
TFar == IsEvent("far") /\ gain' = [gain EXCEPT !.far = Ev[l].g] /\ UNCHANGED amps
TLink == IsEvent("link") /\ ~gain.linked /\ gain' = [gain EXCEPT !.linked = TRUE] /\ UNCHANGED amps
TUnlink == IsEvent("unlink") /\ gain.linked /\ gain' = [gain EXCEPT !.linked = FALSE] /\ UNCHANGED amps
TGain == IsEvent("gain") /\ Same /\ Ev[l].unchanged /\ Ev[l].out = Gain(IF gain.linked THEN gain.far ELSE gain.own, Ev[l].x)
THold == IsEvent("hold") /\ Same /\ Ev[l].unchanged /\ Ev[l].out = Held(Ev[l].f, Ev[l].x)
TFactor == IsEvent("factor") /\ Same /\ (Ev[l].ok <=> Ev[l].f \in {2, 4, 8, 16, 32, 64, 128})
TCrush == IsEvent("crush") /\ Same /\ Ev[l].unchanged /\ Ev[l].out = Crushed(Ev[l].n, Ev[l].x)
TOctave == IsEvent("octave") /\ Same /\ Ev[l].unchanged /\ Ev[l].out = Octave(Ev[l].u, Ev[l].x)
\* tanh(ln(q) / 2) = (q - 1) / (q + 1), q given with sign, in millionths
TTanh == /\ IsEvent("tanh") /\ Same /\ Ev[l].unchanged
         /\ \E e \in {Ev[l]} : \A c \in DOMAIN e.q : \A k \in DOMAIN e.q[c] :
              \E q \in {Abs(e.q[c][k])} : Abs(((q + 1) * e.out[c][k]) - ((IF e.q[c][k] < 0 THEN -1 ELSE 1) * (q - 1) * 1000000)) <= q + 1
\* out in units of 1 / 10000
TLine == /\ IsEvent("line") /\ Same /\ Ev[l].unchanged
         /\ \E e \in {Ev[l]} : \A c \in DOMAIN e.x : \A k \in DOMAIN e.x[c] :
              Abs(((e.p.x1 - e.p.x0) * e.out[c][k]) - (10000 * Line(e.p, e.x[c][k]))) <= Abs(e.p.x1 - e.p.x0)
TPan == IsEvent("pan") /\ Same /\ Ev[l].unchanged /\ Ev[l].out = Panned(Ev[l].v, Ev[l].x)
\* amplitudes of the other panning modes in units of 1 / 20000: constant power,
\* mirrored sides, the louder the nearer, none on the far side
TAmps == /\ IsEvent("amps") /\ UNCHANGED gain
         /\ \E e \in {Ev[l]} : \E v \in {Level(e.v)} :
            /\ e.l \in 0..20000 /\ e.r \in 0..20000
            /\ (e.mode = "constant_power") => Abs((e.l * e.l) + (e.r * e.r) - 400000000) <= 60000
            /\ (v = -4) => e.l = 20000 /\ e.r = 0
            /\ (v = 4) => e.l = 0 /\ e.r = 20000
            /\ (v = 0) => e.l = e.r
            /\ \A i \in DOMAIN amps : amps[i].mode = e.mode =>
                 /\ (amps[i].v = -v) => amps[i].l = e.r /\ amps[i].r = e.l
                 /\ (amps[i].v = v) => amps[i].l = e.l /\ amps[i].r = e.r
                 /\ (amps[i].v < v) => amps[i].l > e.l /\ amps[i].r < e.r
                 /\ (amps[i].v > v) => amps[i].l < e.l /\ amps[i].r > e.r
            /\ amps' = Append(amps, [mode |-> e.mode, v |-> v, l |-> e.l, r |-> e.r])
\* all over the panorama (64 levels to each side): as the levels go from left to right
TFine == /\ IsEvent("fine") /\ Same
         /\ \E e \in {Ev[l]} : \A i \in DOMAIN e.v : \E v \in {IF e.v[i] < -64 THEN -64 ELSE IF e.v[i] > 64 THEN 64 ELSE e.v[i]} :
              /\ (e.mode = "linear") => Abs((128 * e.l[i]) - (20000 * (64 - v))) <= 128 /\ Abs((128 * e.r[i]) - (20000 * (64 + v))) <= 128
              /\ (e.mode = "constant_power") => Abs((e.l[i] * e.l[i]) + (e.r[i] * e.r[i]) - 400000000) <= 60000
              /\ \A j \in 1..(i - 1) :
                   /\ (e.v[j] = -e.v[i]) => e.l[j] = e.r[i] /\ e.r[j] = e.l[i]
                   /\ (e.v[j] >= -64 /\ e.v[j] < v /\ v = e.v[i]) => e.l[j] > e.l[i]
                   /\ (e.v[j] >= -64 /\ e.v[j] < v /\ v = e.v[i]) => e.r[j] < e.r[i]
                   /\ (e.v[j] > v /\ e.v[j] <= 64 /\ v = e.v[i]) => e.l[j] < e.l[i] /\ e.r[j] > e.r[i]
TLaw == /\ IsEvent("law") /\ Same
        /\ \E e \in {Ev[l]} : /\ ConstantPower(e.c) /\ ~e.written
             /\ \A i \in 1..13 : Obeys(e.mode, e.c, e.k, i, e.l[i]) /\ Obeys(e.mode, e.c, e.k, i, e.r[14 - i])
TRefused == IsEvent("refused") /\ Same /\ Ev[l].ok
TDone == Done /\ UNCHANGED tvars
TraceNext == TOwn \/ TFar \/ TLink \/ TUnlink \/ TGain \/ THold \/ TFactor \/ TCrush \/ TOctave \/ TTanh \/ TLine \/ TPan \/ TAmps \/ TFine \/ TLaw \/ TRefused \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
