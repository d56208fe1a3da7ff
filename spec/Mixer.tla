-------------------------------- MODULE Mixer --------------------------------
(***************************************************************************)
(* Audio mixers and the plus operator (klang/audio/mixer.py, klang/block.py)*)
(* Signals are sequences of sides (1 mono, 2 stereo), each the value of the *)
(* even and the odd samples, as integers in units of 1/U. Sources 1..S set  *)
(* their signal; mixers S+1.. are created by adding. Gains are in quarters, *)
(* pannings -2..2 in halves.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

U == 1024

VARIABLES sig,              \* sig[x]: current signal of source or mixer x
          nsrc,             \* number of sources
          stereo,           \* stereo[m]: is mixer m (offset nsrc) a stereo mixer
          chans             \* chans[m]: sequence of [src, gain, pan, own]
mvars == <<sig, nsrc, stereo, chans>>

IsMixer(x) == x > nsrc
M(x) == x - nsrc
Zero == <<0, 0>>
Silence(st) == IF st THEN <<Zero, Zero>> ELSE <<Zero>>
Channel(x) == [src |-> x, gain |-> 4, pan |-> 0, own |-> <<Zero>>]
Bare == [src |-> 0, gain |-> 4, pan |-> 0, own |-> <<Zero>>]

\* kinds: for every mixer existing at the beginning [stereo, inputs]
MixerInit(k, kinds) ==
    /\ nsrc = k
    /\ stereo = [m \in DOMAIN kinds |-> kinds[m].stereo]
    /\ chans = [m \in DOMAIN kinds |-> [i \in 1..kinds[m].inputs |-> Bare]]
    /\ sig = [x \in 1..(k + Len(kinds)) |-> <<Zero>>]

SetSignal(x, s) == /\ ~IsMixer(x)
                   /\ sig' = [sig EXCEPT ![x] = s]
                   /\ UNCHANGED <<nsrc, stereo, chans>>

Extend(x, y) == chans' = [chans EXCEPT ![M(x)] = Append(@, Channel(y))]

(* left + right: an existing mixer is extended, the left one if both are.  *)
Plus(a, b, result) ==
    CASE IsMixer(a) -> /\ result = a /\ Extend(a, b)
                       /\ UNCHANGED <<sig, nsrc, stereo>>
      [] ~IsMixer(a) /\ IsMixer(b) ->
                       /\ result = b /\ Extend(b, a)
                       /\ UNCHANGED <<sig, nsrc, stereo>>
      [] OTHER -> /\ result = Len(sig) + 1
                  /\ sig' = Append(sig, <<Zero>>)
                  /\ stereo' = Append(stereo, FALSE)
                  /\ chans' = Append(chans, <<Channel(a), Channel(b)>>)
                  /\ UNCHANGED nsrc
Refused == UNCHANGED mvars

Connect(x, k, y) == /\ chans[M(x)][k].src = 0
                    /\ chans' = [chans EXCEPT ![M(x)][k].src = y]
                    /\ UNCHANGED <<sig, nsrc, stereo>>
SetOwn(x, k, s) == chans' = [chans EXCEPT ![M(x)][k].own = s] /\ UNCHANGED <<sig, nsrc, stereo>>
SetGain(x, k, g) == chans' = [chans EXCEPT ![M(x)][k].gain = g] /\ UNCHANGED <<sig, nsrc, stereo>>
SetPan(x, k, p) == chans' = [chans EXCEPT ![M(x)][k].pan = p] /\ UNCHANGED <<sig, nsrc, stereo>>
NewChannel(x) == chans' = [chans EXCEPT ![M(x)] = Append(@, Bare)] /\ UNCHANGED <<sig, nsrc, stereo>>

----------------------------------------------------------------------------
Current(c) == IF c.src = 0 THEN c.own ELSE sig[c.src]
Pick(s, side) == IF Len(s) = 1 THEN s[1] ELSE s[side]
\* amplitude of a side in quarters: 4 is full
Amp(st, p, side) == IF ~st THEN 4 ELSE IF side = 1 THEN 2 - p ELSE 2 + p

RECURSIVE SumUp(_)
SumUp(xs) == IF xs = <<>> THEN 0 ELSE Head(xs) + SumUp(Tail(xs))
Abs(x) == IF x < 0 THEN -x ELSE x

\* 16 times the sum over the channels
Total(x, side, k) ==
    SumUp([i \in DOMAIN chans[M(x)] |->
        LET c == chans[M(x)][i]
        IN c.gain * Amp(stereo[M(x)], c.pan, side) * Pick(Current(c), side)[k]])
\* rounding: half a unit per observed signal
Slack(x, side) ==
    SumUp([i \in DOMAIN chans[M(x)] |->
        LET c == chans[M(x)][i] IN Abs(c.gain * Amp(stereo[M(x)], c.pan, side))])
Divisor(x) == IF chans[M(x)] = <<>> THEN 1 ELSE Len(chans[M(x)])

MixedValue(x, out, side, k) ==
    Abs(out[side][k] * 16 * Divisor(x) - Total(x, side, k)) <= 16 * Divisor(x) + Slack(x, side)

Update(x, out) ==
    /\ Len(out) = (IF stereo[M(x)] THEN 2 ELSE 1)
    /\ \A side \in DOMAIN out : \A k \in 1..2 : MixedValue(x, out, side, k)
    /\ sig' = [sig EXCEPT ![x] = out]
    /\ UNCHANGED <<nsrc, stereo, chans>>
=============================================================================
