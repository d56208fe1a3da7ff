---------------------------- MODULE NetworkDesign ----------------------------
(* Two senders, two receivers (one passing on messages, one holding the last  *)
(* value), any interleaving of sends, broken datagrams and updates.           *)
EXTENDS Network, Integers, TLC
CONSTANTS MaxSent
VARIABLES queue, sent, got, value
dvars == <<queue, sent, got, value>>
Receivers == {"messages", "value"}
DInit == /\ queue = [r \in Receivers |-> <<>>] /\ sent = [r \in Receivers |-> <<>>]
         /\ got = <<>> /\ value = 0
Count == Len(sent["messages"]) + Len(sent["value"])
Waiting == Len(queue["messages"]) + Len(queue["value"])
DSend == \E r \in Receivers, n \in 1..2 :
         /\ Count + n <= MaxSent /\ Waiting < MaxSent
         /\ LET objs == [i \in 1..n |-> Count + i] IN
            /\ sent' = [sent EXCEPT ![r] = @ \o objs]
            /\ queue' = [queue EXCEPT ![r] = Append(@, [objects |-> objs])]
         /\ UNCHANGED <<got, value>>
DBad == \E r \in Receivers : /\ Waiting < MaxSent
         /\ queue' = [queue EXCEPT ![r] = Append(@, [objects |-> <<>>])]
         /\ UNCHANGED <<sent, got, value>>
DMessages == /\ got' = got \o Delivered(queue["messages"])
             /\ queue' = [queue EXCEPT !["messages"] = <<>>] /\ UNCHANGED <<sent, value>>
DValue == /\ value' = Held(value, queue["value"])
          /\ queue' = [queue EXCEPT !["value"] = <<>>] /\ UNCHANGED <<sent, got>>
DNext == DSend \/ DBad \/ DMessages \/ DValue
DSpec == DInit /\ [][DNext]_dvars /\ WF_dvars(DMessages) /\ WF_dvars(DValue)
\* in order, once, complete: what was got and what is waiting is what was sent
InOrderOnce == got \o All(queue["messages"]) = sent["messages"]
\* the value is the last one sent as soon as nothing waits
LastValue == queue["value"] = <<>> => value = LastOf(sent["value"], 0)
\* a value never goes back to an older one
Forward == [][value' >= value]_dvars
\* everything sent arrives
Arrives == \A n \in 0..MaxSent : (Len(sent["messages"]) >= n) ~> (Len(got) >= n)
=============================================================================
