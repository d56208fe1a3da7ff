---------------------------- MODULE CompositeGen ----------------------------
(* Every interior of a composite with children 2, 3, 4: which children the  *)
(* input relay feeds, their connections, and which child feeds the output.  *)
EXTENDS Exec, TLC, Json
VARIABLE hist
GInit == ExecInit(5) /\ hist = <<>>
Kids == 2..4
Pairs == {p \in Kids \X Kids : p[1] # p[2]}
E(b, s, k) == <<b, s, k>>
Whole == /\ hist = <<>>
         /\ \E G \in SUBSET Pairs, F \in SUBSET Kids, o \in 0..4 :
            /\ o # 1
            /\ conns' = {<<p[1], 1, p[2], p[1]>> : p \in G} \cup {<<1, 1, b, 1>> : b \in F} \cup {<<o, 1, 1, 1>>}
            /\ hist' = SetToSeq({[op |-> "link", s |-> E(p[1], "out", 1), d |-> E(p[2], "in", IF p[1] = 3 THEN 5 ELSE p[1])] : p \in G})
                \o SetToSeq({[op |-> "link", s |-> E(1, "in", 1), d |-> E(b, "in", 1)] : b \in F})
                \o (IF o = 0 THEN <<>> ELSE <<[op |-> "link", s |-> E(o, "out", 2), d |-> E(1, "out", 1)]>>)
         /\ UNCHANGED n
GSpec == GInit /\ [][Whole]_<<xvars, hist>>
Emit == PrintT("SCN " \o ToJson([cfg |-> [n |-> 5, parent |-> <<0, 1, 1, 1, 0>>, comp |-> <<1>>], ops |-> hist']))
=============================================================================
