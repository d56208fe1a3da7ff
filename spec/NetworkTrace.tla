----------------------------- MODULE NetworkTrace -----------------------------
(* Objects are compared in a canonical form which tells kinds apart.          *)
EXTENDS Network, Integers, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES queue, pending, value, t, l
tvars == <<queue, pending, value, t, l>>
Cfg == Traces[t].cfg
Ev == Traces[t].ev
Done == l > Len(Ev)
\* receivers 1..n, the kind of each is in the configuration; senders the same
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ queue = [r \in DOMAIN Traces[t].cfg.receivers |-> <<>>]
             /\ pending = [s \in DOMAIN Traces[t].cfg.senders |-> <<>>]
             /\ value = [r \in DOMAIN Traces[t].cfg.receivers |-> Traces[t].cfg.default]
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Sender == Cfg.senders[Ev[l].s]
\* an object reaches the input of a sending block: messages queue up, a value replaces the last
TInput == /\ IsEvent("input") /\ UNCHANGED <<queue, value>>
          /\ pending' = [pending EXCEPT ![Ev[l].s] = IF Sender.kind = "message" THEN Append(@, Ev[l].obj) ELSE <<Ev[l].obj>>]
\* the block is updated
TSend == /\ IsEvent("send") /\ UNCHANGED value
         /\ LET objs == pending[Ev[l].s]
                grams == [i \in DOMAIN objs |-> [objects |-> <<objs[i]>>]] IN
            queue' = [queue EXCEPT ![Sender.to] = @ \o grams]
         /\ pending' = IF Sender.kind = "message" THEN [pending EXCEPT ![Ev[l].s] = <<>>] ELSE pending
\* a datagram from elsewhere, with any number of objects; none if it is broken or empty
TRaw == /\ IsEvent("raw") /\ UNCHANGED <<pending, value>>
        /\ queue' = [queue EXCEPT ![Ev[l].r] = Append(@, [objects |-> Ev[l].objects])]
TUpdate == /\ IsEvent("update") /\ UNCHANGED pending
           /\ LET r == Ev[l].r IN
              /\ queue' = [queue EXCEPT ![r] = <<>>]
              /\ IF Cfg.receivers[r] = "message"
                 THEN Ev[l].got = Delivered(queue[r]) /\ UNCHANGED value
                 ELSE /\ value' = [value EXCEPT ![r] = Held(@, queue[r])]
                      /\ Ev[l].got = <<value'[r]>>
\* a note in its dictionary and text form and back
TNote == IsEvent("note") /\ UNCHANGED <<queue, pending, value>> /\ Ev[l].dict = Ev[l].obj /\ Ev[l].json = Ev[l].obj
TDone == Done /\ UNCHANGED tvars
TraceNext == TInput \/ TSend \/ TRaw \/ TUpdate \/ TNote \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
