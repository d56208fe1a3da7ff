----------------------------- MODULE FlowDesign -------------------------------
(* A patch is wired, changed, ordered and run; messages come in.              *)
EXTENDS Flow
CONSTANTS N, MaxConns, MaxMsgs
VARIABLES fresh,        \* ordered from all blocks since the last change of wiring
          calm,         \* nothing happened since a cycle with a fresh order
          sent          \* messages sent so far
dvars == <<fvars, fresh, calm, sent>>
DInit == FlowInit(N) /\ fresh = FALSE /\ calm = FALSE /\ sent = 0
Wire == \E a, b \in Blocks, i \in {0, 2} :
          /\ a # b /\ Cardinality(conns) < MaxConns
          /\ Patched(a, i, b, i)
          /\ fresh' = FALSE /\ calm' = FALSE /\ UNCHANGED sent
Unwire == \E c \in conns : /\ Unpatched(c[1], c[2], c[3], c[4])
                           /\ fresh' = FALSE /\ calm' = FALSE /\ UNCHANGED sent
Sort == \E o \in SetToSeqs(Blocks) : /\ ~fresh
          /\ IsPermutation(o, Blocks) /\ Dependencies(o, Edges) /\ order' = o
          /\ fresh' = TRUE /\ calm' = FALSE
          /\ UNCHANGED <<n, conns, own, inown, out, extra, queue, sent>>
Emits == \E b \in Blocks : /\ sent < MaxMsgs /\ PushTo(b, <<sent + 1, 3>>)
          /\ sent' = sent + 1 /\ calm' = FALSE /\ UNCHANGED fresh
Runs == /\ order # <<>>
        /\ \E w \in {After} : Cycle(w.out, w.got)
        /\ calm' = fresh /\ UNCHANGED <<fresh, sent>>
DNext == Wire \/ Unwire \/ Sort \/ Emits \/ Runs
DSpec == DInit /\ [][DNext]_dvars
Acyclic == \A b \in Blocks : b \notin Forward({e[2] : e \in {f \in Edges : f[1] = b}}, Edges)
\* after a cycle of a patch without loops every value has arrived everywhere,
Settled == (calm /\ Acyclic) => \A b \in Blocks : out[b] = Result(b, own[b], out)
\* every message has been taken,
Taken == (calm /\ Acyclic) => \A b \in Blocks : queue[b] = <<>>
\* and another cycle changes nothing.
Still == (calm /\ Acyclic) => \E w \in {After} : w.own = own /\ w.out = out /\ \A b \in Blocks : w.got[b] = <<>>
\* with loops a value still waits at most for the next cycle
RECURSIVE Cycles(_, _)
Cycles(w, k) == IF k = 0 THEN w ELSE Only({Cycles(x, k - 1) : x \in {TLCEval(Work(w, order))}})
DiesOut == fresh => \A b \in Blocks : Cycles([own |-> own, out |-> out, queue |-> queue, got |-> [x \in Blocks |-> <<>>]], 5).queue[b] = <<>>
=============================================================================
