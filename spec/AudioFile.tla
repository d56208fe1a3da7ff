------------------------------ MODULE AudioFile ------------------------------
(* Transport of an audio file: k frames have been put out since the last      *)
(* rewind, total (or -1: looping) are there to be put out.                    *)
EXTENDS Integers, Sequences
New(total) == [playing |-> FALSE, k |-> 0, total |-> total]
Play(f) == [f EXCEPT !.playing = TRUE]
Pause(f) == [f EXCEPT !.playing = FALSE]
Rewind(f) == [f EXCEPT !.k = 0]
Stop(f) == Rewind(Pause(f))
\* frames put out by an update with buffers of b frames: first frame and number
Count(f, b) == IF ~f.playing THEN 0 ELSE IF f.total < 0 \/ f.k + b <= f.total THEN b ELSE f.total - f.k
\* it stops by itself at the end; at the very end either at once or with the next update
Updates(f, b) ==
    IF ~f.playing THEN {f}
    ELSE LET g == [f EXCEPT !.k = @ + Count(f, b)] IN
         IF f.total < 0 \/ f.k + b < f.total THEN {g}
         ELSE IF f.k + b = f.total THEN {g, Pause(g)}
         ELSE {Pause(g)}
=============================================================================
