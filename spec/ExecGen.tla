------------------------------ MODULE ExecGen ------------------------------
(* Scenarios: every digraph on N blocks (Mode "graphs"), or one history for *)
(* every transition of the connection graph of N blocks ("histories").      *)
EXTENDS Exec, TLC, Json

CONSTANTS N, Mode

VARIABLE hist
gvars == <<xvars, hist>>
GView == <<n, conns>>

GInit == ExecInit(N) /\ hist = <<>>
Pairs == {p \in (1..N) \X (1..N) : p[1] # p[2]}

Whole == /\ Mode = "graphs" /\ conns = {} /\ hist = <<>>
         /\ \E G \in SUBSET Pairs :
            /\ hist' = SetToSeq({[op |-> "connect", a |-> p[1], o |-> 1, b |-> p[2], i |-> p[1]] : p \in G})
                       \o <<[op |-> "order", starts |-> <<1>>]>>
            /\ conns' = {<<p[1], 1, p[2], p[1]>> : p \in G}
         /\ UNCHANGED n
\* input i of a block is fed by any block
Join == /\ Mode = "histories"
        /\ \E a, b \in 1..N, i \in 1..2 :
           /\ Connect(a, 1, b, i)
           /\ hist' = Append(hist, [op |-> "connect", a |-> a, o |-> 1, b |-> b, i |-> i])
Part == /\ Mode = "histories"
        /\ \E c \in conns :
           /\ Disconnect(c[1], c[2], c[3], c[4])
           /\ hist' = Append(hist, [op |-> "disconnect", a |-> c[1], o |-> c[2], b |-> c[3], i |-> c[4]])
GNext == Whole \/ Join \/ Part
GSpec == GInit /\ [][GNext]_gvars
Emit == PrintT("SCN " \o ToJson([cfg |-> [n |-> N], ops |-> hist']))
=============================================================================
