----------------------------- MODULE ExecTrace -----------------------------
(* Trace validation for Exec. *)
EXTENDS Exec, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES t, l
tvars == <<xvars, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ ExecInit(Traces[t].cfg.n)
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t

TConnect == IsEvent("connect") /\ LET e == Ev[l] IN Connect(e.a, e.o, e.b, e.i)
TDisconnect == IsEvent("disconnect") /\ LET e == Ev[l] IN Disconnect(e.a, e.o, e.b, e.i)
TOrder == IsEvent("order") /\ Order(ToSet(Ev[l].starts), Ev[l].order)
\* execute(order) updated exactly the blocks of that order
TExecute == IsEvent("execute") /\ Ev[l].log = Ev[l].order /\ UNCHANGED xvars
TRun == IsEvent("run") /\ Run(ToSet(Ev[l].starts), Ev[l].cycles, Ev[l].log)
\* sorting a graph of its own: every node once, in an order that respects it; the graph stays.
\* Without cycles nothing is cut
TSort == /\ IsEvent("sort") /\ UNCHANGED xvars
         /\ \E e \in {Ev[l]} : \E E \in {{<<x[1], x[2]>> : x \in {y \in ToSet(e.edges) : y[1] # y[2]}}} :
            /\ e.unchanged
            /\ IsPermutation(e.order, 1..e.n) /\ Dependencies(e.order, E)
            /\ ToSet(e.sources) = {v \in 1..e.n : \A x \in ToSet(e.edges) : x[2] # v}
            /\ ToSet(e.sinks) = {v \in 1..e.n : \A x \in ToSet(e.edges) : x[1] # v}
            /\ \E cut \in {ToSet(e.cut)} :
                  /\ cut \subseteq E \cup {<<v, v>> : v \in 1..e.n}
                  /\ \A x \in cut : x[1] \in Forward({x[2]}, E)
                  /\ \A v \in 1..e.n : v \notin Forward({x[2] : x \in {y \in E \ cut : y[1] = v}}, E \ cut)
                  /\ \A v \in 1..e.n : (<<v, v>> \in cut) <=> (\E x \in ToSet(e.edges) : x[1] = v /\ x[2] = v)
TDone == Done /\ UNCHANGED tvars
TraceNext == TConnect \/ TDisconnect \/ TOrder \/ TExecute \/ TRun \/ TSort \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
