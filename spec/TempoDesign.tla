----------------------------- MODULE TempoDesign ------------------------------
(* A player fills bars with plain, dotted and tuplet notes. However it does, the
   elapsed time is that of the notes, and a full bar lasts the bar period. *)
EXTENDS Tempo
CONSTANTS Tempi, Numerators, Denominators, MaxNotes
VARIABLES tempo, metre, filled, elapsed, count
vars == <<tempo, metre, filled, elapsed, count>>
Beat == DefaultBeat(metre)
Notes == {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<1, 8>>, Dot(<<1, 4>>, 1), Dot(<<1, 2>>, 2), Dot(<<1, 2>>, 3), Dedot(<<3, 4>>, 1)}
         \cup {Tuplet(3, <<<<1, 8>>, <<1, 8>>, <<1, 8>>>>, 2), Tuplet(5, <<<<1, 4>>, <<1, 8>>, <<1, 4>>>>, 4)}
Init == /\ tempo \in Tempi /\ metre \in Numerators \X Denominators
        /\ filled = <<0, 1>> /\ elapsed = <<0, 1>> /\ count = 0
LeqQ(q, r) == q[1] * r[2] <= r[1] * q[2]
Play(note) == /\ count < MaxNotes /\ LeqQ(Add(filled, note), metre)
              /\ filled' = Add(filled, note) /\ elapsed' = Add(elapsed, Duration(note, <<tempo, 1>>, Beat))
              /\ count' = count + 1 /\ UNCHANGED <<tempo, metre>>
Next == \E note \in Notes : Play(note)
Spec == Init /\ [][Next]_vars
Additive == Equal(elapsed, Duration(filled, <<tempo, 1>>, Beat))
FullBar == Equal(filled, metre) => Equal(elapsed, Bar(<<tempo, 1>>, metre, Beat))
Beats == Equal(Mul(NumberOfBeats(metre, Beat), Period(<<tempo, 1>>)), Bar(<<tempo, 1>>, metre, Beat))
\* kinds of metres exclude each other as they should, and the beat divides unless it is complex
Classes == /\ ~(Simple(metre) /\ (Compound(metre) \/ Complex(metre))) /\ ~(Compound(metre) /\ Complex(metre))
           /\ (~Complex(metre) => NumberOfBeats(metre, Beat)[2] = 1)
Inverse == \A note \in Notes, k \in -4..4 : Equal(Dedot(Dot(note, k), k), note)
DotAdds == \A note \in Notes, k \in 0..4 : Equal(Dot(note, k + 1), Add(Dot(note, k), Mul(note, <<1, Pow2(k + 1)>>)))
=============================================================================
