-------------------------------- MODULE Exec --------------------------------
(***************************************************************************)
(* Execution order of a block network (klang/execution.py, klang/graph.py).*)
(* State: the connections between the blocks 1..n, each <<a, o, b, i>>     *)
(* from output o of block a to input i of block b; several connections may *)
(* link the same two blocks.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

VARIABLES n, conns
xvars == <<n, conns>>

Blocks == 1..n
\* dependencies; a block feeding itself does not count
EdgesOf(cs) == {<<c[1], c[3]>> : c \in {d \in cs : d[1] # d[3]}}
Edges == EdgesOf(conns)

RECURSIVE Spread(_, _)
Spread(S, E) == LET T == S \cup {e[2] : e \in {f \in E : f[1] \in S}}
                           \cup {e[1] : e \in {f \in E : f[2] \in S}}
                IN IF T = S THEN S ELSE Spread(T, E)
\* all blocks connected to the given ones, in any direction
Network(starts, E) == Spread(starts, E)

RECURSIVE Forward(_, _)
Forward(S, E) == LET T == S \cup {e[2] : e \in {f \in E : f[1] \in S}}
                 IN IF T = S THEN S ELSE Forward(T, E)

(* The orders that are allowed for a network with dependencies E. *)
IsPermutation(order, S) ==
    /\ Len(order) = Cardinality(S)
    /\ ToSet(order) = S
Respected(order, E) ==
    LET pos == [b \in ToSet(order) |-> CHOOSE k \in DOMAIN order : order[k] = b]
    IN {e \in E : pos[e[1]] < pos[e[2]]}
Dependencies(order, E) ==
    LET R == Respected(order, E)
    IN \A e \in E \ R : e[1] \in Forward({e[2]}, R)
ValidOrder(order, starts, E) ==
    LET S == Network(starts, E)
        F == {e \in E : e[1] \in S}
    IN IsPermutation(order, S) /\ Dependencies(order, F)

----------------------------------------------------------------------------
ExecInit(k) == n = k /\ conns = {}
InputTaken(b, i) == \E c \in conns : c[3] = b /\ c[4] = i
Connect(a, o, b, i) ==
    /\ ~InputTaken(b, i)
    /\ conns' = conns \cup {<<a, o, b, i>>}
    /\ UNCHANGED n
Disconnect(a, o, b, i) ==
    /\ <<a, o, b, i>> \in conns
    /\ conns' = conns \ {<<a, o, b, i>>}
    /\ UNCHANGED n
Order(starts, order) ==
    /\ ValidOrder(order, starts, Edges)
    /\ UNCHANGED xvars
\* an engine run: each cycle updates in the same, allowed, order
RECURSIVE Repeat(_, _)
Repeat(s, k) == IF k = 0 THEN <<>> ELSE s \o Repeat(s, k - 1)
Run(starts, cycles, log) ==
    /\ LET m == Cardinality(Network(starts, Edges))
       IN /\ Len(log) = m * cycles
          /\ cycles > 0 =>
             /\ ValidOrder(SubSeq(log, 1, m), starts, Edges)
             /\ log = Repeat(SubSeq(log, 1, m), cycles)
    /\ UNCHANGED xvars
=============================================================================
