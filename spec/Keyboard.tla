------------------------------ MODULE Keyboard ------------------------------
(* Keys pressed and released, with repetition by the operating system, on the *)
(* musical keyboard. A key is a text; its meaning:                            *)
EXTENDS Integers, Sequences, TLC
BasePitch == ("a" :> 0) @@ ("w" :> 1) @@ ("s" :> 2) @@ ("e" :> 3) @@ ("d" :> 4) @@ ("f" :> 5)
          @@ ("t" :> 6) @@ ("g" :> 7) @@ ("z" :> 8) @@ ("h" :> 9) @@ ("u" :> 10) @@ ("j" :> 11)
          @@ ("k" :> 12) @@ ("o" :> 13) @@ ("l" :> 14) @@ ("p" :> 15)
Digits == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5)
       @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
Notes == DOMAIN BasePitch
Controls == {"x", "y", "c", "v"} \cup DOMAIN Digits
\* all keys give a valid pitch in every octave
MinOctave == 0
MaxOctave == 9
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* state: held keys, pitch started by each held key, octave, velocity in tenths,
\* temperament (-1: the one given in the beginning)
New(octave) == [held |-> {}, active |-> <<>>, octave |-> octave, velocity |-> 10, temper |-> -1]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Note(p, v, tmp) == [pitch |-> p, velocity |-> v, temper |-> tmp]
Repeated(s, k, down) == (k \in s.held) = down
\* what a physical event does to the held keys
Held(s, k, down) == IF down THEN s.held \cup {k} ELSE s.held \ {k}
Pressed(s, k) ==
    LET h == Held(s, k, TRUE) IN
    IF k \in Notes THEN [s EXCEPT !.held = h, !.active = (k :> (BasePitch[k] + 12 * s.octave)) @@ @]
    ELSE IF k = "y" THEN [s EXCEPT !.held = h, !.octave = Max2(@ - 1, MinOctave)]
    ELSE IF k = "x" THEN [s EXCEPT !.held = h, !.octave = Min2(@ + 1, MaxOctave)]
    ELSE IF k = "c" THEN [s EXCEPT !.held = h, !.velocity = Max2(@ - 1, 1)]
    ELSE IF k = "v" THEN [s EXCEPT !.held = h, !.velocity = Min2(@ + 1, 10)]
    ELSE IF k \in DOMAIN Digits THEN [s EXCEPT !.held = h, !.temper = Digits[k]]
    ELSE [s EXCEPT !.held = h]
Released(s, k) == [s EXCEPT !.held = Held(s, k, FALSE), !.active = Without(@, k)]
Next(s, k, down) == IF Repeated(s, k, down) THEN s ELSE IF down THEN Pressed(s, k) ELSE Released(s, k)
\* notes sent
Sent(s, k, down) ==
    IF Repeated(s, k, down) \/ k \notin Notes THEN <<>>
    ELSE IF down THEN <<Note(BasePitch[k] + 12 * s.octave, s.velocity, s.temper)>>
    ELSE <<Note(s.active[k], 0, -1)>>
=============================================================================
