--------------------------- MODULE CompositeTrace ---------------------------
EXTENDS Composite, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES t, l
tvars == <<cvars, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1
    /\ CompositeInit(Traces[t].cfg.n, Traces[t].cfg.parent, ToSet(Traces[t].cfg.comp))
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* every event shows the connections after it
Obs(e) == links' = ToSet(e.links) /\ Len(e.links) = Cardinality(links')

TLink == IsEvent("link") /\ Link(Ev[l].s, Ev[l].d) /\ Obs(Ev[l])
TUnlink == IsEvent("unlink") /\ Unlink(Ev[l].s, Ev[l].d) /\ Obs(Ev[l])
TReorder == IsEvent("reorder") /\ Reorder(Ev[l].c, ToSet(Ev[l].starts)) /\ Obs(Ev[l])
TUpdate == IsEvent("update") /\ Update(Ev[l].c, Ev[l].runs) /\ Obs(Ev[l])
TUnpatch == IsEvent("unpatch") /\ Unpatch(Ev[l].b, ToSet(Ev[l].inside))
            /\ Ev[l].raised = Ev[l].boom /\ Obs(Ev[l])
TStart == IsEvent("start") /\ Start(Ev[l].log, ToSet(Ev[l].warned), Ev[l].alarm, Traces[t].cfg.label) /\ Obs(Ev[l])
TDone == Done /\ UNCHANGED tvars
TraceNext == TLink \/ TUnlink \/ TReorder \/ TUpdate \/ TUnpatch \/ TStart \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
