----------------------------- MODULE DrumsTrace -------------------------------
EXTENDS Drums, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
\* ages of two kick drums of the same kind, the sound at every age heard so far;
\* the noise of a looped hi hat
VARIABLES ages, heard, noise, t, l
tvars == <<ages, heard, noise, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1 /\ ages = <<-1, -1>> /\ heard = <<>> /\ noise = <<>>
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Same == UNCHANGED <<ages, heard, noise>>
\* a kick drum; where the pitch is constant and fits the buffer, the sound
\* halves from buffer to buffer (1 / 10^8, or 1 / 2 * 10^8 of it)
TKick == /\ IsEvent("kick") /\ UNCHANGED noise
         /\ \E e \in {Ev[l]} : \E a \in {Aged(Older(ages[e.d]), e.notes)} :
            /\ ages' = [ages EXCEPT ![e.d] = a]
            /\ Len(e.out) = 256
            /\ IF a < 0 THEN UNCHANGED heard
               ELSE IF a < Len(heard) THEN e.out = heard[a + 1] /\ UNCHANGED heard
               ELSE a = Len(heard) /\ heard' = Append(heard, e.out)
            /\ (Cfg.halves /\ a > 0) => \A i \in 1..256 : Abs((2 * e.out[i]) - heard[a][i]) <= 2
            /\ (a = 0) => e.out[1] = 0
            /\ (Cfg.halves /\ a = 0) =>
                  \* one period of a sine that halves over the buffer: zeros, sides, and one loudest sample
                  \A i \in 1..256 : IF (i - 1) % Cfg.half = 0 THEN Abs(e.out[i]) <= 1
                                    ELSE IF ((i - 1) \div Cfg.half) % 2 = 0 THEN e.out[i] > 0 ELSE e.out[i] < 0
\* a hi hat; the envelope and the noise (in 1 / 1000, 0 where it is not heard)
THat == /\ IsEvent("hat") /\ UNCHANGED <<ages, heard>>
        /\ \E e \in {Ev[l]} :
           /\ \A i \in DOMAIN e.env : (e.env[i] = 0) => e.silent[i]
           /\ \A i \in DOMAIN e.noise : e.noise[i] \in -1001..1001
           /\ IF ~Cfg.looped
              THEN /\ noise' = e.noise
                   /\ (Len(noise) > 0 /\ \E i \in DOMAIN noise : noise[i] # 0 /\ e.noise[i] # 0) => e.noise # noise
              ELSE /\ noise' = [i \in 1..256 |-> IF e.noise[i] # 0 \/ noise = <<>> THEN e.noise[i] ELSE noise[i]]
                   /\ noise # <<>> => \A i \in 1..256 : noise[i] = 0 \/ e.noise[i] = 0 \/ Abs(noise[i] - e.noise[i]) <= 1
\* exponential decay: halves every so many samples, across buffers (1 / 10^8)
TDecay == /\ IsEvent("decay") /\ Same
          /\ \E e \in {Ev[l]} :
             /\ e.env[1] = 100000000
             /\ \A i \in 1..(Len(e.env) - e.half) : Abs((2 * e.env[i + e.half]) - e.env[i]) <= 2
             /\ \A i \in 1..(Len(e.env) - 1) : e.env[i] < 1000 \/ e.env[i + 1] < e.env[i]
             \* evenly: half of the half life is the square root of a half
             /\ \E r \in {e.env[1 + (e.half \div 2)] \div 10000} : Abs((2 * r * r) - 100000000) <= 60000
             \* wherever one starts: so many half lives later, doubled as often
             /\ \A i \in DOMAIN e.late : /\ e.late[i].passed = <<256000, 256000>>
                                         /\ \A j \in 1..256 : Abs(e.late[i].env[j] - e.env[j]) <= 2
             \* the pitch in 1 / 1000 Hz
             /\ \A i \in DOMAIN e.pitch : Abs(e.pitch[i] - (1000 * e.f) - ((e.f * e.intensity * (e.env[i] \div 1000)) \div 100)) <= (e.f * e.intensity) + 2
\* sampling on and on: constant or changing frequencies (units of a turn per sample,
\* phases in the same unit, turns apart); one phase, one sample later
TWave == /\ IsEvent("wave") /\ Same
         /\ \E e \in {Ev[l]} : /\ Len(e.next) = 1 /\ e.first \in {0, 1, e.turn - 1, e.turn}
                               /\ (e.next[1] - e.last - e.step) % e.turn \in {0, 1, 2, e.turn - 1, e.turn - 2}
TDone == Done /\ UNCHANGED tvars
TraceNext == TKick \/ THat \/ TDecay \/ TWave \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
