---------------------------- MODULE OscillatorGen ----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES kind, ops
GInit == kind \in {"phasor", "osc", "fm", "pwm", "lfo1", "lfoN", "clock"} /\ ops = <<>>
Nr(o) == Len(SelectSeq(o, LAMBDA e : e.op = "clone")) + 1
GNext == /\ Len(ops) < MaxOps /\ UNCHANGED kind
         /\ \E i \in 1..Nr(ops), o \in {"const", "vary", "update", "clone"} :
            /\ (o = "clone" => Nr(ops) < 3 /\ kind # "clock")
            /\ (o = "vary" => kind \notin {"phasor", "lfo1", "clock"})
            /\ (Len(ops) > 0 /\ o \in {"const", "vary"} => ~(ops[Len(ops)].op = o /\ ops[Len(ops)].i = i))
            /\ ops' = Append(ops, [op |-> o, i |-> i])
GSpec == GInit /\ [][GNext]_<<kind, ops>>
Emit == Len(ops') = MaxOps => PrintT("SCN " \o ToJson([kind |-> kind, ops |-> ops']))
=============================================================================
