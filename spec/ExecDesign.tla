----------------------------- MODULE ExecDesign -----------------------------
(***************************************************************************)
(* The algorithm behind the execution order, for every digraph on N nodes: *)
(* a depth first search collects the back edges, a worklist then places    *)
(* nodes whose remaining predecessors are placed. Every choice the code    *)
(* leaves to set iteration (start nodes, children, worklist) is free here. *)
(***************************************************************************)
EXTENDS Exec, TLC

CONSTANTS N,                \* number of blocks
          AnyChild          \* TRUE: children in any order, FALSE: ascending

VARIABLES g,                \* the dependencies
          color,            \* "white", "gray", "black"
          stack,            \* nodes being visited
          todo,             \* todo[v]: children not looked at yet
          back,             \* back edges found
          order
avars == <<xvars, g, color, stack, todo, back, order>>

Pairs == {p \in (1..N) \X (1..N) : p[1] # p[2]}
Succ(v) == {e[2] : e \in {f \in g : f[1] = v}}

AInit ==
    /\ ExecInit(N)
    /\ g \in SUBSET Pairs
    /\ color = [v \in 1..N |-> "white"]
    /\ stack = <<>> /\ back = {} /\ order = <<>>
    /\ todo = [v \in 1..N |-> Succ(v)]

Top == stack[Len(stack)]
Start == /\ stack = <<>>
         /\ \E v \in 1..N :
            /\ color[v] = "white"
            /\ ~AnyChild => \A w \in 1..(v - 1) : color[w] # "white"
            /\ color' = [color EXCEPT ![v] = "gray"]
            /\ stack' = <<v>>
         /\ UNCHANGED <<xvars, g, todo, back, order>>
Visit == /\ stack # <<>> /\ todo[Top] # {}
         /\ \E c \in todo[Top] :
            /\ ~AnyChild => \A d \in todo[Top] : c <= d
            /\ todo' = [todo EXCEPT ![Top] = @ \ {c}]
            /\ CASE color[c] = "black" -> UNCHANGED <<color, stack, back>>
                 [] color[c] = "gray"  -> back' = back \cup {<<Top, c>>} /\ UNCHANGED <<color, stack>>
                 [] OTHER -> /\ color' = [color EXCEPT ![c] = "gray"]
                             /\ stack' = Append(stack, c)
                             /\ UNCHANGED back
         /\ UNCHANGED <<xvars, g, order>>
Leave == /\ stack # <<>> /\ todo[Top] = {}
         /\ color' = [color EXCEPT ![Top] = "black"]
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ UNCHANGED <<xvars, g, todo, back, order>>
Searched == stack = <<>> /\ \A v \in 1..N : color[v] = "black"
Place == /\ Searched
         /\ \E v \in (1..N) \ ToSet(order) :
            /\ \A e \in g \ back : e[2] = v => e[1] \in ToSet(order)
            /\ order' = Append(order, v)
         /\ UNCHANGED <<xvars, g, color, stack, todo, back>>
Finished == Len(order) = N /\ UNCHANGED avars

ANext == Start \/ Visit \/ Leave \/ Place \/ Finished
ASpec == AInit /\ [][ANext]_avars

\* deadlock checking shows that the worklist never gets stuck
Correct == Len(order) = N => ValidOrder(order, 1..N, g)
\* a composite in front of its interior can be left out of the result
FirstCanBeLeftOut == (Len(order) = N /\ ~AnyChild) =>
    LET rest == SelectSeq(order, LAMBDA v : v # 1)
    IN Dependencies(rest, {e \in g : 1 \notin {e[1], e[2]}})
Acyclic(E) == \A v \in 1..N : v \notin Forward({e[2] : e \in {f \in E : f[1] = v}}, E)
RestIsAcyclic == Searched => Acyclic(g \ back)
OnlyLoopsCut == \A e \in back : e[1] \in Forward({e[2]}, g \ back) \/ ~Searched
=============================================================================
