---------------------------- MODULE FilterDesign ----------------------------
(* Three formulations of each filter on all short inputs and chunkings:     *)
(* sample by sample (native code), whole chunks against what was in the     *)
(* line before (Python code, chunks up to k), and the difference equation   *)
(* over the complete history.                                               *)
EXTENDS Filter, TLC
CONSTANTS MaxK, MaxLen, Inputs
VARIABLES f, g, xs, ys, fed
dvars == <<f, g, xs, ys, fed>>
Gains == {<<1, 1>>, <<-1, 1>>, <<2, 1>>}
Seqs(n) == [1..n -> Inputs]
DInit == /\ \E kind \in {"forward", "backward", "echo"}, k \in 1..MaxK, a \in Gains :
               f = NewFilter(kind, k, a[1], a[2])
         /\ g = f /\ xs = <<>> /\ ys = <<>> /\ fed = <<>>
Old(h, n) == SubSeq(h.line, 1, n)
Block(h, c) ==
    LET n == Len(c)
        old == Old(h, n)
        out == [i \in 1..n |-> IF h.kind = "echo" THEN old[i] ELSE c[i] + Scaled(h, old[i])]
        feed == [i \in 1..n |-> IF h.kind = "forward" THEN c[i] ELSE c[i] + Scaled(h, old[i])]
    IN <<out, feed, [h EXCEPT !.line = SubSeq(@ \o feed, n + 1, h.k + n)]>>
DNext == \E n \in 1..f.k : \E c \in Seqs(n) :
    /\ Len(xs) + n <= MaxLen
    /\ LET a == Chunk(f, c)
           b == Block(g, c)
       IN /\ f' = a[2] /\ g' = b[3]
          /\ xs' = xs \o c
          /\ ys' = ys \o a[1]
          /\ fed' = fed \o b[2]
          /\ Assert(a[1] = b[1], "chunked output differs")
DSpec == DInit /\ [][DNext]_dvars
SameState == f = g
At(s, i) == IF i < 1 THEN 0 ELSE s[i]
Equation == \A i \in DOMAIN ys :
    ys[i] = CASE f.kind = "forward"  -> xs[i] + Scaled(f, At(xs, i - f.k))
              [] f.kind = "backward" -> xs[i] + Scaled(f, At(ys, i - f.k))
              [] f.kind = "echo"     -> At(fed, i - f.k)
EchoFeeds == f.kind = "echo" => \A i \in DOMAIN xs : fed[i] = xs[i] + Scaled(f, ys[i])
=============================================================================
