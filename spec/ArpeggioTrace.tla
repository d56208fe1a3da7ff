---------------------------- MODULE ArpeggioTrace ----------------------------
(* The arpeggio container and the arpeggiator block of the code. The phase of *)
(* the block advances by step/turn of a turn per update.                      *)
EXTENDS Arpeggio, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES a, sounding, phase, prev, step, t, l
tvars == <<a, sounding, phase, prev, step, t, l>>
Ev == Traces[t].ev
Cfg == Traces[t].cfg
Done == l > Len(Ev)
None == [p |-> -1, v |-> 0, f |-> 0]
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ a = New(Cfg.order) /\ sounding = None /\ phase = 0 /\ prev = 0
             /\ step = Cfg.step
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Seen == /\ Ev[l].len = Len(a'.notes)
        /\ Ev[l].notes = a'.notes
Rest == UNCHANGED <<sounding, phase, prev, step>>
TAdd == IsEvent("add") /\ a' = Add(a, Ev[l].note) /\ Seen /\ Rest
TRemove == IsEvent("remove") /\ a' = Remove(a, Ev[l].note.p) /\ Ev[l].ok = Holds(a, Ev[l].note.p) /\ Seen /\ Rest
TNext == /\ IsEvent("next")
         /\ IF a.notes = <<>> THEN Ev[l].empty /\ UNCHANGED a
            ELSE ~Ev[l].empty /\ \E x \in Nexts(a) : x[1] = Ev[l].note /\ a' = x[2]
         /\ Seen /\ Rest
TContains == IsEvent("contains") /\ Ev[l].yes = Holds(a, Ev[l].note.p) /\ UNCHANGED a /\ Rest
\* note-offs are compared by pitch
IsOff(n, s) == n.v = 0 /\ n.p = s.p
TUpdate ==
    /\ IsEvent("update")
    /\ LET b == PressAll(a, Ev[l].ins)
           wrapped == phase <= prev
           outs == Ev[l].outs
           k == IF sounding = None THEN 0 ELSE 1
       IN IF ~wrapped THEN outs = <<>> /\ a' = b /\ UNCHANGED sounding
          ELSE /\ Len(outs) = k + (IF b.notes = <<>> THEN 0 ELSE 1)
               /\ k = 1 => IsOff(outs[1], sounding)
               /\ IF b.notes = <<>> THEN a' = b /\ sounding' = None
                  ELSE \E x \in Nexts(b) : x[1] = outs[k + 1] /\ a' = x[2] /\ sounding' = x[1]
    /\ prev' = phase /\ phase' = (phase + step) % Cfg.turn
    /\ UNCHANGED step
TInitial == IsEvent("initial") /\ a' = PressAll(a, Ev[l].ins) /\ Seen /\ Rest
TRate == IsEvent("rate") /\ step' = Ev[l].step /\ UNCHANGED <<a, sounding, phase, prev>>
TDone == Done /\ UNCHANGED tvars
TraceNext == TAdd \/ TRemove \/ TNext \/ TContains \/ TUpdate \/ TInitial \/ TRate \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
