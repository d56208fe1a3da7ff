------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* Ring buffer filters (klang/audio/filters.py, _filters.c), sample by     *)
(* sample. line holds the last k values fed into the line, oldest first.   *)
(* Samples are integers in units of 1/U; gains are a fraction num/den.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

U == 1024

\* f = [kind, k, num, den, line]
NewFilter(kind, k, num, den) ==
    [kind |-> kind, k |-> k, num |-> num, den |-> den, line |-> [i \in 1..k |-> 0]]
Scaled(f, v) == (f.num * v) \div f.den      \* exact for the inputs used
\* one sample: <<output, fed into the line>>
Tick(f, x) ==
    CASE f.kind = "forward"  -> <<x + Scaled(f, f.line[1]), x>>
      [] f.kind = "backward" -> <<x + Scaled(f, f.line[1]), x + Scaled(f, f.line[1])>>
      [] f.kind = "echo"     -> <<f.line[1], x + Scaled(f, f.line[1])>>
After(f, x) == [f EXCEPT !.line = Append(Tail(@), Tick(f, x)[2])]
RECURSIVE Chunk(_, _)
\* a chunk: <<outputs, filter afterwards>>
Chunk(f, xs) ==
    IF xs = <<>> THEN <<<<>>, f>>
    ELSE LET r == Chunk(After(f, Head(xs)), Tail(xs))
         IN <<<<Tick(f, Head(xs))[1]>> \o r[1], r[2]>>
=============================================================================
