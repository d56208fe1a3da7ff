---------------------------- MODULE PatchDesign ----------------------------
(***************************************************************************)
(* Exhaustive check of Patch: the three parts of the module with ghost     *)
(* variables stating the properties independently of the actions.          *)
(*   view[i]   what a push-based patch would show at i: updated whenever a *)
(*             value is set upstream or a connection changes (C02)         *)
(*   sent[i]   everything that was put into queue i                        *)
(*   taken[i]  how many of them were handed out or discarded by the reader *)
(*             or dropped on overflow (C03)                                *)
(*   quiet     no refused request changed anything (C01)                   *)
(***************************************************************************)
EXTENDS Patch, TLC

CONSTANTS Part,             \* "graph", "values" or "messages"
          Values, MaxMsg

VARIABLES view, sent, taken, nmsg
dvars == <<vars, view, sent, taken, nmsg>>

E(r, f) == [role |-> r, fam |-> f]
EndSets ==
    CASE Part = "graph" ->
            {<<E("out", "value"), E("out", "value"), E("relay", "value"),
               E("relay", "value"), E("in", "value"), E("in", "msg"), E("relay", "msg")>>}
      [] Part = "values" ->
            {<<E("out", "value"), E("out", "value"), E("relay", "value"),
               E("relay", "value"), E("in", "value")>>}
      [] Part = "messages" ->
            {<<E("out", "msg"), E("relay", "msg"), E("in", "msg"), E("in", "msg")>>}

DInit ==
    /\ \E e \in EndSets : PatchInit(e)
    /\ view = [i \in DOMAIN ends |-> 0]
    /\ sent = [i \in DOMAIN ends |-> <<>>]
    /\ taken = [i \in DOMAIN ends |-> 0]
    /\ nmsg = 0

\* everything downstream of i (i included), following outs
RECURSIVE Down(_, _)
Down(S, n) == IF n = 0 THEN S
              ELSE Down(S \cup UNION {outs[i] : i \in S}, n - 1)
DownOf(i) == Down({i}, Cardinality(Ends))

DConnect == \E a, b \in Ends :
    LET d == Direct(a, b) IN
    /\ Part # "graph" => (IsOutput(d[1]) /\ d[1] \notin DownOf(d[2]))    \* no relay loops
    /\ \E r \in {"ok", "taken", "incompatible"} :
        /\ Connect(d[1], d[2], r)
        /\ view' = IF r = "ok" /\ Part = "values"
                   THEN [j \in Ends |-> IF j \in DownOf(d[2]) THEN view[d[1]] ELSE view[j]]
                   ELSE view
    /\ UNCHANGED <<sent, taken, nmsg>>

DDisconnect == \E a, b \in Ends :
    LET d == Direct(a, b) IN
    \E r \in {"ok", "refused"} :
        /\ Disconnect(d[1], d[2], r)
        /\ view' = IF r = "ok" /\ Part = "values"
                   THEN [j \in Ends |-> IF j \in DownOf(d[2]) THEN own[d[2]] ELSE view[j]]
                   ELSE view
        /\ UNCHANGED <<sent, taken, nmsg>>

DSet == /\ Part = "values"
        /\ \E i \in Ends, v \in Values :
            /\ SetValue(i, v)
            /\ view' = IF src[i] = 0
                       THEN [j \in Ends |-> IF j \in DownOf(i) THEN v ELSE view[j]]
                       ELSE view
        /\ UNCHANGED <<sent, taken, nmsg>>

DSend == /\ Part = "messages" /\ nmsg < MaxMsg
         /\ nmsg' = nmsg + 1
         /\ \E i \in Ends :
            /\ Send(i, nmsg + 1)
            /\ sent' = [j \in Ends |-> IF j \in Targets(i) THEN Append(sent[j], nmsg + 1) ELSE sent[j]]
            \* an overflowing queue has lost its oldest message
            /\ taken' = [j \in Ends |-> IF j \in Targets(i) /\ Len(queue[j]) = MaxQueue
                                        THEN taken[j] + 1 ELSE taken[j]]
         /\ UNCHANGED view

DReceive == /\ Part = "messages"
            /\ \E i \in {j \in Ends : ends[j].role = "in"} :
               \/ \E k \in 1..MaxQueue :
                    /\ Receive(i, k, SubSeq(queue[i], 1, IF k < Len(queue[i]) THEN k ELSE Len(queue[i])))
                    /\ taken' = [taken EXCEPT ![i] = @ + (IF k < Len(queue[i]) THEN k ELSE Len(queue[i]))]
               \/ /\ ReceiveLatest(i, IF queue[i] = <<>> THEN <<>> ELSE <<Last(queue[i])>>)
                  /\ taken' = [taken EXCEPT ![i] = @ + Len(queue[i])]
            /\ UNCHANGED <<view, sent, nmsg>>

DNext == DConnect \/ DDisconnect \/ DSet \/ DSend \/ DReceive
DSpec == DInit /\ [][DNext]_dvars

----------------------------------------------------------------------------
GraphInv == TypeOK /\ Agree /\ SameKind
\* a request changes nothing unless it adds or removes exactly one pair
OneEdge == [][ Cardinality({<<o, i>> \in Ends \X Ends : (i \in outs[o]) # (i \in outs'[o])}) <= 1 ]_dvars

PullIsPush == Part = "values" => NoLoops /\ \A i \in Ends : Read(i) = view[i]

\* a queue holds the newest of the messages sent to it and not yet taken, in order
FIFO == Part = "messages" =>
        \A i \in Ends : ends[i].role = "in" =>
           queue[i] = SubSeq(sent[i], taken[i] + 1, Len(sent[i]))
OnceEach == Part = "messages" =>
        \A i \in Ends : \A k, m \in DOMAIN sent[i] : k < m => sent[i][k] < sent[i][m]
Bounded == \A i \in Ends : Len(queue[i]) <= MaxQueue
=============================================================================
