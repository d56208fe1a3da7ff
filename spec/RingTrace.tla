----------------------------- MODULE RingTrace -----------------------------
EXTENDS Ring, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES t, l
tvars == <<rvars, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1
    /\ RingInit(Traces[t].cfg.length, Traces[t].cfg.capacity, Traces[t].cfg.bufsize)
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
TAppend == IsEvent("append") /\ Append_(Ev[l].vs[1])
TExtend == IsEvent("extend") /\ Extend(Ev[l].vs, Ev[l].ok)
TPeekExtend == IsEvent("peek_extend") /\ PeekExtend(Ev[l].vs, Ev[l].ok, Ev[l].vals)
TPeek == IsEvent("peek") /\ (Ev[l].k > 0 => Len(Ev[l].vals) >= Min(Ev[l].k, Visible)) /\ Peek(Ev[l].vals)
TLength == IsEvent("length") /\ SetLength(Ev[l].n, Ev[l].ok) /\ Ev[l].now = length'
TDone == Done /\ UNCHANGED tvars
TraceNext == TAppend \/ TExtend \/ TPeekExtend \/ TPeek \/ TLength \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
