---------------------------- MODULE NotationTrace -----------------------------
EXTENDS Notation, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES t, l
tvars == <<t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
TraceInit == t \in DOMAIN Traces /\ l = 1
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
\* exactly the expected text, and the notes are left alone
TNotes == IsEvent("notes") /\ \E e \in {Ev[l]} :
            /\ e.unchanged
            /\ IF Writable(e.notes, e.u)
               THEN e.out = Sheet(e.notes, IF e.grouping = <<>> THEN Usual(e.metre) ELSE e.grouping, e.stretch, e.signed, e.u)
               ELSE e.out = <<>>
TTuplet == IsEvent("tuplet") /\ \E e \in {Ev[l]} : e.unchanged /\ e.out = Tupled(e.note, e.u, e.explicit)
TNote == IsEvent("note") /\ Ev[l].out = Glyph(Ev[l].v, Ev[l].u, Ev[l].dir)
TSignature == IsEvent("signature") /\ Ev[l].unchanged /\ Ev[l].out = Signature(Ev[l].grouping)
TSize == IsEvent("size") /\ Ev[l].out = <<Width(Ev[l].text), Height(Ev[l].text)>>
THeighten == IsEvent("heighten") /\ Ev[l].out = Heighten(Ev[l].text, Ev[l].height, Ev[l].fill)
TStack == IsEvent("stack") /\ Ev[l].out = HStack(Ev[l].texts, Ev[l].sep)
TCumsum == IsEvent("cumsum") /\ Ev[l].unchanged /\ Ev[l].out = [i \in DOMAIN Ev[l].values |-> Sum(SubSeq(Ev[l].values, 1, i - 1))]
TExpand == IsEvent("expand") /\ Ev[l].unchanged /\ Ev[l].out = Expanded(Ev[l].grouping) /\ Ev[l].metre = MetreOf(Ev[l].grouping)
TDone == Done /\ UNCHANGED tvars
TraceNext == TNotes \/ TTuplet \/ TNote \/ TSignature \/ TSize \/ THeighten \/ TStack \/ TCumsum \/ TExpand \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
