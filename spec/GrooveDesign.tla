----------------------------- MODULE GrooveDesign -----------------------------
(* A pointer goes round the cycle on a fine grid. However the pattern is chosen,
   the bent phase starts at zero, always moves on, never by more than the
   steepest note allows, passes the nodes at equal distances and closes the
   cycle; phrasing zero is the straight phase.                               *)
EXTENDS Groove
CONSTANTS Weights, MaxNotes, MaxRepeats, Grid
VARIABLES ws, n, x, k, out
vars == <<ws, n, x, k, out>>
Phrasings == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>}
Patterns == UNION {[1..m -> Weights] : m \in 1..MaxNotes}
Den == Grid * Sum(ws) * n
Init == /\ ws \in Patterns /\ n \in 1..MaxRepeats /\ x \in Phrasings
        /\ k = 0 /\ out = Warp(ws, n, x, <<0, 1>>)
Next == k + 1 < Den /\ k' = k + 1 /\ out' = Warp(ws, n, x, <<k + 1, Den>>) /\ UNCHANGED <<ws, n, x>>
Spec == Init /\ [][Next]_vars
InCycle == Leq(<<0, 1>>, out) /\ Less(out, <<1, 1>>)
StartsAtZero == k = 0 => Same(out, <<0, 1>>)
StraightWithout == x[1] = 0 => Same(out, <<k, Den>>)
\* strictly increasing: a bijection of the cycle, no step can be lost or doubled
MovesOn == [][Less(out, out')]_vars
\* without jumps: steps of the bent phase are at most the steepest slope times the grid
Slope(i) == <<Sum(ws), Len(ws) * ws[i]>>
Bounded(a, b) == \E i \in DOMAIN ws : LET s == Slope(i)
                     IN Leq(<<((b[1] * a[2]) - (a[1] * b[2])) * Den * s[2] * x[2], a[2] * b[2]>>,
                            <<((x[2] - x[1]) * s[2]) + (x[1] * s[1]), 1>>)
Continuous == [][Bounded(out, out')]_vars
\* the j-th note of the i-th repetition starts at its equal part when phrased fully
Nodes == x[1] = x[2] => \A j \in 0..(Len(ws) - 1) :
            LET q == (k * Sum(ws) * n) % (Den * Sum(ws)) IN
            (q = Start(ws, j) * Den) => Same(out, <<(((k * n) \div Den) * Len(ws)) + j, n * Len(ws)>>)
\* the end of one repetition is the start of the next
Repetition == k % (Grid * Sum(ws)) = 0 => Same(out, <<k, Den>>)
\* equal notes do not bend anything
Even == (\A i \in DOMAIN ws : ws[i] = ws[1]) => Same(out, <<k, Den>>)
=============================================================================
