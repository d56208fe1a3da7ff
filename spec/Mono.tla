-------------------------------- MODULE Mono --------------------------------
(* Scheduling of the single voice. Held keys are a sequence of notes in the   *)
(* order of pressing. Which of several presses of the same pitch a release    *)
(* takes back is left open, hence a set of possibilities.                     *)
EXTENDS Integers, Sequences, SequencesExt
Policies == {"newest", "oldest", "highest", "lowest"}
RemoveAt_(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Positions(h, p) == {i \in DOMAIN h : h[i].p = p}
Key(h, n) == IF n.v > 0 THEN {Append(h, n)}
             ELSE IF Positions(h, n.p) = {} THEN {h}
             ELSE {RemoveAt_(h, i) : i \in Positions(h, n.p)}
KeyAll(hs, n) == UNION {Key(h, n) : h \in hs}
Preferred(policy, h) ==
    CASE policy = "newest"  -> {h[Len(h)]}
      [] policy = "oldest"  -> {h[1]}
      [] policy = "highest" -> {h[i] : i \in {i \in DOMAIN h : \A k \in DOMAIN h : h[i].p >= h[k].p}}
      [] policy = "lowest"  -> {h[i] : i \in {i \in DOMAIN h : \A k \in DOMAIN h : h[i].p <= h[k].p}}
\* possibilities that agree with a voice playing n / being gated off
Playing(policy, hs, n) == {h \in hs : h # <<>> /\ n \in Preferred(policy, h)}
Idle(hs) == {h \in hs : h = <<>>}
=============================================================================
