------------------------------ MODULE PatchGen ------------------------------
(***************************************************************************)
(* Scenario generation: for every transition of the design's state graph,  *)
(* one sequence of calls that reaches it (a path from the initial state    *)
(* followed by that transition). hist is hidden by VIEW, and the action    *)
(* constraint prints it for every transition TLC generates.                *)
(***************************************************************************)
EXTENDS PatchDesign, Json

VARIABLE hist
gvars == <<dvars, hist>>
GView == <<src, outs, own, queue>>

GInit == DInit /\ hist = <<>>
Do(rec) == hist' = Append(hist, rec)
Ghosts == UNCHANGED <<view, sent, taken>>
NoLoop(o, i) == Part # "graph" => (IsOutput(o) /\ o \notin DownOf(i))

GConnect == \E a, b \in Ends : LET d == Direct(a, b) IN
    /\ NoLoop(d[1], d[2])
    /\ Part = "values" => ConnectResults(d[1], d[2]) = {"ok"}     \* refusals: Part "graph"
    /\ \E r \in ConnectResults(d[1], d[2]) : Connect(d[1], d[2], r)
    /\ Do([op |-> "connect", a |-> a, b |-> b]) /\ Ghosts /\ UNCHANGED nmsg
GDisconnect == \E a, b \in Ends : LET d == Direct(a, b) IN
    /\ Part = "values" => (Compatible(d[1], d[2]) /\ Connected(d[1], d[2]))
    /\ \E r \in {"ok", "refused"} : Disconnect(d[1], d[2], r)
    /\ Do([op |-> "disconnect", a |-> a, b |-> b]) /\ Ghosts /\ UNCHANGED nmsg
GPipe == \E a, b \in Ends :
    /\ Part = "graph"
    /\ IF IsOutput(a) /\ IsInput(b)
       THEN \E r \in ConnectResults(a, b) : Connect(a, b, r)
       ELSE UNCHANGED vars
    /\ Do([op |-> "pipe", a |-> a, b |-> b]) /\ Ghosts /\ UNCHANGED nmsg
GSet == Part = "values" /\ \E i \in Ends, v \in Values :
    SetValue(i, v) /\ Do([op |-> "set", i |-> i, v |-> v]) /\ Ghosts /\ UNCHANGED nmsg
GSend == Part = "messages" /\ nmsg < MaxMsg /\ \E i \in Ends :
    Send(i, nmsg + 1) /\ nmsg' = nmsg + 1 /\ Do([op |-> "send", i |-> i, m |-> nmsg + 1]) /\ Ghosts
GRecv == Part = "messages" /\ \E i \in {j \in Ends : ends[j].role = "in"} :
    /\ \/ \E k \in 1..2 :
            /\ Receive(i, k, SubSeq(queue[i], 1, IF k < Len(queue[i]) THEN k ELSE Len(queue[i])))
            /\ Do([op |-> "recv", i |-> i, k |-> k])
       \/ /\ ReceiveLatest(i, IF queue[i] = <<>> THEN <<>> ELSE <<Last(queue[i])>>)
          /\ Do([op |-> "latest", i |-> i])
    /\ Ghosts /\ UNCHANGED nmsg

GNext == GConnect \/ GDisconnect \/ GPipe \/ GSet \/ GSend \/ GRecv
GSpec == GInit /\ [][GNext]_gvars

Emit == PrintT("SCN " \o ToJson([cfg |-> [ends |-> ends], ops |-> hist']))
=============================================================================
