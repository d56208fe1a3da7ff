-------------------------- MODULE MemorylessDesign ---------------------------
(* A signal goes through a rack of effects, in any order.                      *)
EXTENDS Memoryless
CONSTANTS Len0, MaxFx
Values == -3..3
VARIABLES x, first, log
vars == <<x, first, log>>
Init == /\ first \in [1..1 -> [1..Len0 -> Values]] /\ x = first /\ log = <<>>
Do(name, y) == Len(log) < MaxFx /\ x' = y /\ log' = Append(log, name) /\ UNCHANGED first
Next == \/ \E g \in {<<2>>, <<-1>>, <<0>>} : Do("gain", Gain(g, x))
        \/ \E f \in {2, 4} : Do("hold", Held(f, x))
        \/ \E n \in {0, 1, 2} : Do("crush", Crushed(n, x))
        \/ \E v \in {-4, 0, 4} : Len(x) = 1 /\ Do("pan", Panned(v, x))
Spec == Init /\ [][Next]_vars
\* holding twice is holding once, crushing twice is crushing once
HoldTwice == Held(2, Held(2, x)) = Held(2, x) /\ Held(4, Held(2, x)) = Held(4, x) /\ Held(2, Held(4, x)) = Held(4, x)
CrushTwice == \A n \in 0..3 : Crushed(n, Crushed(n, x)) = Crushed(n, x)
\* crushing never raises a sample, and not by more than its step
CrushNear == \A n \in 0..3 : \A c \in DOMAIN x : \A k \in DOMAIN x[c] : x[c][k] - Crushed(n, x)[c][k] \in 0..(Pow2(n) - 1)
\* gains commute with holding; panning loses nothing
Commute == Held(2, Gain(<<3>>, x)) = Gain(<<3>>, Held(2, x))
PanSum == \A v \in -6..6 : \A k \in DOMAIN x[1] : Len(x) = 1 => Panned(v, x)[1][k] + Panned(v, x)[2][k] = 8 * x[1][k]
PanMirror == \A v \in -6..6 : Len(x) = 1 => Panned(v, x)[1] = Panned(-v, x)[2]
OctaveEven == Octave(4, x) = Octave(4, Gain(<<-1>>, x))
=============================================================================
