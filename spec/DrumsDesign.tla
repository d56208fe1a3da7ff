----------------------------- MODULE DrumsDesign ------------------------------
(* Two drums of the same kind are hit; one of them is left alone now and then. *)
EXTENDS Drums
CONSTANTS MaxTime
VARIABLES ages, last, time, parted
vars == <<ages, last, time, parted>>
Notes == {[p |-> p, v |-> v] : p \in 0..1, v \in 0..1}
Bars == {<<>>} \cup {<<n>> : n \in Notes} \cup {<<n, m>> : n \in Notes, m \in Notes}
Init == ages = <<-1, -1>> /\ last = <<-1, -1>> /\ time = 0 /\ parted = FALSE
Next == /\ time < MaxTime /\ time' = time + 1
        /\ \E a \in Bars, b \in Bars :
             /\ ages' = <<Aged(Older(ages[1]), a), Aged(Older(ages[2]), b)>>
             /\ last' = << IF \E i \in DOMAIN a : Hit(a[i]) THEN time ELSE last[1], IF \E i \in DOMAIN b : Hit(b[i]) THEN time ELSE last[2] >>
             /\ parted' = ((\E i \in DOMAIN a : Hit(a[i])) # (\E i \in DOMAIN b : Hit(b[i])))
Spec == Init /\ [][Next]_vars
\* the age is the time since the last hit, and nothing else
SinceHit == \A d \in 1..2 : ages[d] = IF last[d] < 0 THEN -1 ELSE time - 1 - last[d]
\* drums last hit at the same time sound the same
Together == (last[1] = last[2]) => ages[1] = ages[2]
=============================================================================
