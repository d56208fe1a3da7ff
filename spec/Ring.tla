-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Ring buffer as a delay line (klang/ring_buffer.py): all that counts is  *)
(* the sequence of values written so far.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES length, capacity, bufsize,
          hist,             \* the values written, newest last (old ones cut off)
          count,            \* number of values written
          base              \* values written before this are not determined
                            \* (-1: never changed length, zero before the start)
rvars == <<length, capacity, bufsize, hist, count, base>>

Min(a, b) == IF a < b THEN a ELSE b
RingInit(L, C, B) ==
    /\ length = L /\ capacity = C /\ bufsize = B
    /\ hist = <<>> /\ count = 0 /\ base = -1

Keep(s) == IF Len(s) > 2 * capacity THEN SubSeq(s, Len(s) - capacity, Len(s)) ELSE s
Write(vs) == /\ hist' = Keep(hist \o vs)
             /\ count' = count + Len(vs)
             /\ UNCHANGED <<length, capacity, bufsize, base>>

Visible == Min(length, bufsize)
\* value written back values ago (1: the last one)
Known(back) == count - back >= base \/ base = -1
Past(back) == IF back > count THEN 0 ELSE hist[Len(hist) - back + 1]
Shows(vals) == /\ Len(vals) >= 1
               /\ \A j \in 1..Min(Len(vals), Visible) :
                    Known(length - j + 1) => vals[j] = Past(length - j + 1)

Peek(vals) == Shows(vals) /\ UNCHANGED rvars
Append_(v) == Write(<<v>>)
\* extend is refused exactly for chunks above the buffer size
Extend(vs, ok) == /\ ok = (Len(vs) <= bufsize)
                  /\ IF ok THEN Write(vs) ELSE UNCHANGED rvars
\* as many old values as new ones
PeekExtend(vs, ok, vals) ==
    /\ ok = (Len(vs) <= bufsize)
    /\ ok => Len(vals) = Len(vs) /\ (vs # <<>> => Shows(vals))
    /\ IF ok THEN Write(vs) ELSE UNCHANGED rvars
SetLength(L, ok) ==
    /\ ok = (L <= capacity)
    /\ IF ok THEN /\ length' = L
                  /\ base' = count
                  /\ UNCHANGED <<capacity, bufsize, hist, count>>
       ELSE UNCHANGED rvars
=============================================================================
