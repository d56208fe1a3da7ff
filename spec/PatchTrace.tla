----------------------------- MODULE PatchTrace -----------------------------
(***************************************************************************)
(* Trace validation: recorded calls on real klang connectables, each with  *)
(* its result and the observed state of the whole patch afterwards, must be*)
(* steps of Patch. A deadlock before the end of a trace is a call that the *)
(* specification does not explain.                                         *)
(***************************************************************************)
EXTENDS Patch, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES t, l
tvars == <<vars, t, l>>

Ev == Traces[t].ev
Done == l > Len(Ev)

TraceInit ==
    /\ t \in DOMAIN Traces
    /\ l = 1
    /\ PatchInit(Traces[t].cfg.ends)

IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t

(* observed state of the patch after the call *)
ObsGraph(e) ==
    /\ \A i \in Ends : src'[i] = e.src[i]
    /\ \A i \in Ends : outs'[i] = ToSet(e.outs[i])
    /\ \A i \in Ends : Len(e.outs[i]) = Cardinality(outs'[i])
    /\ ToSet(e.isc) = {<<o, i>> \in Ends \X Ends : i \in outs'[o]}
    /\ \A i \in Ends : ends[i].role = "out" => (e.con[i] <=> outs'[i] # {})
    /\ \A i \in Ends : ends[i].role = "in" => (e.con[i] <=> src'[i] # 0)
ReadAfter(i) == LET RECURSIVE H(_) H(k) == IF src'[k] = 0 THEN k ELSE H(src'[k]) IN own'[H(i)]
ObsValues(e) == \A i \in Ends : e.vals[i] = ReadAfter(i)
Obs(e) ==
    /\ "src" \in DOMAIN e => ObsGraph(e)
    /\ "vals" \in DOMAIN e => ObsValues(e)

TConnect ==
    /\ IsEvent("connect")
    /\ LET e == Ev[l]
           d == Direct(e.a, e.b)
       IN Connect(d[1], d[2], e.res) /\ Obs(e)
TDisconnect ==
    /\ IsEvent("disconnect")
    /\ LET e == Ev[l]
           d == Direct(e.a, e.b)
       IN Disconnect(d[1], d[2], e.res) /\ Obs(e)
\* a | b: the left side must be a source, the right side a destination
TPipe ==
    /\ IsEvent("pipe")
    /\ LET e == Ev[l] IN
       /\ IF IsOutput(e.a) /\ IsInput(e.b)
          THEN Connect(e.a, e.b, e.res) /\ (e.res = "ok" => e.ret = e.b)
          ELSE e.res \in {"refused", "incompatible"} /\ UNCHANGED vars
       /\ Obs(e)
TSet == IsEvent("set") /\ SetValue(Ev[l].i, Ev[l].v) /\ Obs(Ev[l])
TSend == IsEvent("send") /\ Send(Ev[l].i, Ev[l].m) /\ Obs(Ev[l])
TRecv == IsEvent("recv") /\ Receive(Ev[l].i, Ev[l].k, Ev[l].got) /\ Obs(Ev[l])
TLatest == IsEvent("latest") /\ ReceiveLatest(Ev[l].i, Ev[l].got) /\ Obs(Ev[l])
TMix == IsEvent("mix") /\ Mix(Ev[l].ins, Ev[l].o) /\ Obs(Ev[l])
TDone == Done /\ UNCHANGED tvars

TraceNext == TConnect \/ TDisconnect \/ TPipe \/ TSet \/ TSend \/ TRecv \/ TLatest \/ TMix \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
