------------------------------- MODULE Patch -------------------------------
(***************************************************************************)
(* The connection graph of a klang patch: endpoints (outputs, inputs and   *)
(* relays, for values or for messages) and the connections between them,   *)
(* the values read through them and the messages sent through them.        *)
(*                                                                         *)
(* Structure follows klang/connections.py: a connection is recorded twice, *)
(* as the source of the destination (src) and in the set of destinations   *)
(* of the source (outs); a request either makes both entries or none.      *)
(* Values are pulled (Read), messages are pushed (SendStep) and queued.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

CONSTANT MaxQueue           \* capacity of a message queue (50 in klang)

VARIABLES
    ends,                   \* the endpoints: sequence of [role, fam]
    src,                    \* src[i]: the source of endpoint i, 0 if none
    outs,                   \* outs[i]: set of destinations of endpoint i
    own,                    \* own[i]: value set on i itself
    queue                   \* queue[i]: messages waiting at endpoint i

vars == <<ends, src, outs, own, queue>>

Roles == {"out", "relay", "in"}
Fams  == {"base", "value", "msg"}

Ends == DOMAIN ends
IsInput(i)  == ends[i].role \in {"in", "relay"}
IsOutput(i) == ends[i].role \in {"out", "relay"}
Compatible(o, i) == IsOutput(o) /\ IsInput(i) /\ ends[o].fam = ends[i].fam

PatchInit(e) ==
    /\ ends = e
    /\ src = [i \in DOMAIN e |-> 0]
    /\ outs = [i \in DOMAIN e |-> {}]
    /\ own = [i \in DOMAIN e |-> 0]
    /\ queue = [i \in DOMAIN e |-> <<>>]

(***************************************************************************)
(* a.connect(b) and a.disconnect(b) may be called from either end. An      *)
(* output connects to b, an input connects from b; a relay called with     *)
(* something that can be a destination is the source, else the destination.*)
(***************************************************************************)
Direct(a, b) ==
    CASE ends[a].role = "out" -> <<a, b>>
      [] ends[a].role = "in"  -> <<b, a>>
      [] OTHER -> IF IsInput(b) THEN <<a, b>> ELSE <<b, a>>

(* The results a connect request may have. *)
ConnectResults(o, i) ==
    IF Compatible(o, i)
    THEN IF src[i] # 0 THEN {"taken"} ELSE {"ok"}
    ELSE {"incompatible"}
         \cup (IF IsInput(i) /\ src[i] # 0 THEN {"taken"} ELSE {})

Connect(o, i, res) ==
    /\ res \in ConnectResults(o, i)
    /\ IF res = "ok"
       THEN /\ src' = [src EXCEPT ![i] = o]
            /\ outs' = [outs EXCEPT ![o] = @ \cup {i}]
       ELSE UNCHANGED <<src, outs>>
    /\ UNCHANGED <<ends, own, queue>>

Connected(o, i) == src[i] = o /\ i \in outs[o]

Disconnect(o, i, res) ==
    /\ res = IF Compatible(o, i) /\ Connected(o, i) THEN "ok" ELSE "refused"
    /\ IF res = "ok"
       THEN /\ src' = [src EXCEPT ![i] = 0]
            /\ outs' = [outs EXCEPT ![o] = @ \ {i}]
       ELSE UNCHANGED <<src, outs>>
    /\ UNCHANGED <<ends, own, queue>>

(***************************************************************************)
(* Following sources upwards. A patch with a relay loop has no head for    *)
(* its members; reading and sending there is outside of the specification. *)
(***************************************************************************)
RECURSIVE HeadN(_, _)
HeadN(i, n) == IF src[i] = 0 THEN i
               ELSE IF n = 0 THEN 0
               ELSE HeadN(src[i], n - 1)
Head_(i) == HeadN(i, Cardinality(Ends))
NoLoopAt(i) == Head_(i) # 0
NoLoops == \A i \in Ends : NoLoopAt(i)

Read(i) == own[Head_(i)]

SetValue(i, v) ==
    /\ own' = [own EXCEPT ![i] = v]
    /\ UNCHANGED <<ends, src, outs, queue>>

(***************************************************************************)
(* Messages. Targets(i): the queues a message put into i arrives at.       *)
(***************************************************************************)
RECURSIVE TargetsN(_, _)
TargetsN(i, n) ==
    IF ends[i].role = "in" THEN {i}
    ELSE IF n = 0 THEN {}
    ELSE UNION {TargetsN(j, n - 1) : j \in outs[i]}
Targets(i) == TargetsN(i, Cardinality(Ends))

Enqueue(q, m) == LET r == Append(q, m)
                 IN IF Len(r) > MaxQueue THEN Tail(r) ELSE r

(* Sending from an output or relay, or pushing straight into an input. *)
Send(i, m) ==
    /\ queue' = [j \in Ends |-> IF j \in Targets(i) THEN Enqueue(queue[j], m) ELSE queue[j]]
    /\ UNCHANGED <<ends, src, outs, own>>

(* Receiving up to k messages (the reader may stop early). *)
Receive(i, k, got) ==
    /\ LET n == IF k < Len(queue[i]) THEN k ELSE Len(queue[i])
       IN /\ got = SubSeq(queue[i], 1, n)
          /\ queue' = [queue EXCEPT ![i] = SubSeq(@, n + 1, Len(@))]
    /\ UNCHANGED <<ends, src, outs, own>>

(* Newest message or nothing; discards the rest. *)
ReceiveLatest(i, got) ==
    /\ got = IF queue[i] = <<>> THEN <<>> ELSE <<Last(queue[i])>>
    /\ queue' = [queue EXCEPT ![i] = <<>>]
    /\ UNCHANGED <<ends, src, outs, own>>

(***************************************************************************)
(* Message mixer block: takes all messages of its inputs, input by input,  *)
(* and sends them to its output.                                           *)
(***************************************************************************)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Mix(ins, o) ==
    LET all == Concat([k \in DOMAIN ins |-> queue[ins[k]]])
        cleared == [j \in Ends |-> IF j \in Range(ins) THEN <<>> ELSE queue[j]]
        add(q, ms) == LET r == q \o ms
                      IN IF Len(r) > MaxQueue THEN SubSeq(r, Len(r) - MaxQueue + 1, Len(r)) ELSE r
    IN /\ queue' = [j \in Ends |-> IF j \in Targets(o) THEN add(cleared[j], all) ELSE cleared[j]]
       /\ UNCHANGED <<ends, src, outs, own>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* C01
TypeOK ==
    /\ \A i \in Ends : src[i] \in Ends \cup {0}
    /\ \A i \in Ends : outs[i] \subseteq Ends
Agree == \A o, i \in Ends : (src[i] = o) <=> (i \in outs[o])
SameKind == \A i \in Ends : src[i] # 0 => Compatible(src[i], i)
=============================================================================
