----------------------------- MODULE RingDesign -----------------------------
(***************************************************************************)
(* The storage scheme of the ring buffer: an array of capacity + bufsize   *)
(* cells where the first bufsize cells are mirrored behind position length.*)
(* Cells hold the age of their value (1: written last, Old: never written  *)
(* or too long ago), so the state space is finite without bounding the     *)
(* history: every reachable combination of position and contents for all   *)
(* sizes up to MaxLen / MaxBuf is checked.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLen, MaxBuf

VARIABLES length, capacity, bufsize, data, pos, written
dvars == <<length, capacity, bufsize, data, pos, written>>

Old == 100
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Cells == 0..(capacity + bufsize - 1)

DInit == /\ capacity \in 1..MaxLen /\ bufsize \in 1..MaxBuf
         /\ length = capacity
         /\ data = [i \in 0..(capacity + bufsize - 1) |-> Old]
         /\ pos = 0 /\ written = 0

Aged(d, n) == [i \in DOMAIN d |-> IF d[i] = Old \/ d[i] + n > 2 * MaxLen + MaxBuf THEN Old ELSE d[i] + n]

DAppend ==
    LET d0 == Aged(data, 1)
        d1 == [d0 EXCEPT ![pos] = 1]
        d2 == IF pos < bufsize THEN [d1 EXCEPT ![pos + length] = 1] ELSE d1
    IN /\ data' = d2
       /\ pos' = (pos + 1) % length
       /\ written' = Min(written + 1, length)
       /\ UNCHANGED <<length, capacity, bufsize>>

\* write the ages n..1 to the cells from a on, starting with the k-th value
Put(d, a, b, k, n) == [i \in DOMAIN d |-> IF i >= a /\ i < b THEN n - (k + i - a) ELSE d[i]]

DExtend == \E m \in 0..bufsize :
    LET n == Min(m, length)                     \* only the last values remain
        start == (pos + (m - n)) % length
        stop == start + n
        d0 == Put(Aged(data, m), start, stop, 0, n)
        d1 == IF start < bufsize
              THEN LET a == start + length
                       b == Min(length + bufsize, stop + length)
                   IN Put(d0, a, b, 0, n)
              ELSE d0
        d2 == IF stop > length
              THEN LET a == Max(0, start - length)
                       b == stop - length
                   IN Put(d1, a, b, n - (b - a), n)
              ELSE d1
    IN /\ data' = d2
       /\ pos' = (pos + m) % length
       /\ written' = Min(written + m, length)
       /\ UNCHANGED <<length, capacity, bufsize>>

DNext == DAppend \/ DExtend
DSpec == DInit /\ [][DNext]_dvars

InBounds == DOMAIN data = Cells
\* the delay line: position j shows the value written length - j ago
DelayLine == \A j \in 0..(Min(length, bufsize) - 1) :
    data[pos + j] = IF written >= length - j THEN length - j ELSE Old
=============================================================================
