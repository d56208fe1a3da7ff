----------------------------- MODULE EuclidDesign -----------------------------
(* The algorithm: words are appended pairwise until at most one word of the
   second kind remains. *)
EXTENDS Euclid
CONSTANTS MaxSlots, MaxAll
VARIABLES p, n, a, na, b, nb
vars == <<p, n, a, na, b, nb>>
\* na words a and nb words b
Init == \E s \in 1..MaxSlots : \E q \in 1..s :
        /\ n = s /\ p = q /\ a = <<1>> /\ na = q /\ b = <<0>> /\ nb = s - q
Merge == /\ nb > 1 /\ UNCHANGED <<p, n>>
         /\ a' = a \o b
         /\ IF na <= nb THEN na' = na /\ nb' = nb - na /\ b' = b
                        ELSE na' = nb /\ nb' = na - nb /\ b' = a
Next == Merge \/ (nb <= 1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Merge)
Times(w, m) == FlattenSeq([i \in 1..m |-> w])
Result == Times(a, na) \o Times(b, nb)
Conserved == Len(Result) = n /\ Len(Pulses(Result)) = p
MaximallyEven == nb <= 1 => IsRhythm(Result, p, n)
Terminates == <>(nb <= 1)
\* both formulations of evenness agree, on every pattern
Agree == (a = <<1>> /\ n <= MaxAll /\ p = 1) => \A r \in [1..n -> {0, 1}] : Even(r) <=> EvenByDefinition(r)
=============================================================================
