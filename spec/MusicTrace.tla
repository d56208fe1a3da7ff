----------------------------- MODULE MusicTrace -------------------------------
EXTENDS Music, FiniteSetsExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
\* the chord being inverted; the tuning being played (hundredths of cents)
VARIABLES chord, tuning, t, l
tvars == <<chord, tuning, t, l>>
Ev == Traces[t].ev
Done == l > Len(Ev)
Equal == [i \in 1..12 |-> (i - 1) * 10000]
TraceInit == /\ t \in DOMAIN Traces /\ l = 1 /\ chord = <<0, 4, 7>> /\ tuning = Equal
IsEvent(o) == ~Done /\ Ev[l].op = o /\ l' = l + 1 /\ UNCHANGED t
Same == UNCHANGED <<chord, tuning>>
Near(a, b, tol) == Abs(a - b) <= tol
TChord == IsEvent("chord") /\ chord' = Ev[l].chord /\ UNCHANGED tuning
TInvert == /\ IsEvent("invert") /\ UNCHANGED tuning /\ Ev[l].unchanged
           /\ chord' = Inverted(chord, Ev[l].n) /\ Ev[l].out = chord'
\* a tuning made from cents, or found by name (whose cents are those of the table)
TTune == IsEvent("tune") /\ tuning' = Ev[l].cents /\ Ev[l].unchanged /\ UNCHANGED chord
TSound == /\ IsEvent("sound") /\ Same /\ Ev[l].unchanged
          /\ Len(Ev[l].out) = Len(Ev[l].pitches)
          /\ \A i \in DOMAIN Ev[l].pitches : Near(Ev[l].out[i], Cents(tuning, 120000, Ev[l].pitches[i]), 2)
\* every tuning with a name: twelve notes ascending, within less than a semitone of
\* equal steps, the reference where it belongs, octaves doubled
TNamed == /\ IsEvent("named") /\ Same
          /\ \A i \in DOMAIN Ev[l].tunings : \E c \in {Ev[l].tunings[i]} :
               /\ Len(c) = 25
               /\ Near(c[10], 0, 2)
               /\ \A k \in 1..24 : c[k] < c[k + 1]
               /\ \A k \in 1..13 : Near(c[k + 12], c[k] + 120000, 2)
               /\ \A k \in 1..12 : Near(c[k], 10000 * (k - 10), 9999)
\* just intonation, frequencies (hundredths of Hz) against the ratios
TJust == /\ IsEvent("just") /\ Same
         /\ \E e \in {Ev[l]} : \A i \in DOMAIN e.pitches :
              \E r \in {Just[(e.pitches[i] % 12) + 1]} : \E oct \in {(e.pitches[i] \div 12) - 5} :
                \E num \in {r[1] * Just[10][2] * (IF oct > 0 THEN Pow2(oct) ELSE 1)} :
                \E den \in {r[2] * Just[10][1] * (IF oct < 0 THEN Pow2(-oct) ELSE 1)} :
                  Near(e.out[i] * den, e.reference * num, den)
TProduct == /\ IsEvent("product") /\ Same
            /\ \E e \in {Ev[l]} : /\ Near(e.ab, e.a + e.b, 2) /\ Near(e.inv, -e.a, 2)
                                  /\ \A i \in DOMAIN e.octaves : Near(e.octaves[i], 120000 * (i - 3), 1)
TBack == IsEvent("back") /\ Same /\ Ev[l].out = Ev[l].cents
TName == IsEvent("name") /\ Same /\ Ev[l].out = Pitch(Ev[l].note)
TSpell == IsEvent("spell") /\ Same /\ Ev[l].out = Spelled(Ev[l].pitch) /\ Ev[l].back = Ev[l].pitch
TRefused == IsEvent("refused") /\ Same /\ Ev[l].ok
TCode == /\ IsEvent("code") /\ Same
         /\ \E s \in {Decoded(Ev[l].code)} :
            /\ Ev[l].steps = Steps(s) /\ Ev[l].listed = Steps(s)
            /\ (0 \in s) => Ev[l].back = Ev[l].code /\ Ev[l].pitches = SetToSortSeq(s, <)
TScale == IsEvent("scale") /\ Same /\ Ev[l].unchanged /\ Ev[l].pitches = Pitches(Ev[l].steps) /\ Ev[l].code = CodeOf(Classes(Ev[l].steps))
TPitches == IsEvent("pitches") /\ Same /\ Ev[l].unchanged /\ Ev[l].steps = Steps({p % 12 : p \in ToSet(Ev[l].pitches)})
\* items of the tables that come with the library
TKnown == /\ IsEvent("known") /\ Same
          /\ \E e \in {Ev[l]} :
             CASE e.what = "scale" -> Classes(e.out) = Classes(e.row) /\ (Cardinality(Classes(e.row)) = Len(e.row) => e.out = e.row)
               [] e.what = "chord" -> e.out = e.row
               [] e.what = "interval" -> e.out[1] * e.row[2] = e.out[2] * e.row[1]
TFind == IsEvent("find") /\ Same /\ Ev[l].out \in Found(Ev[l].keys, Ev[l].name)
TDistance == IsEvent("distance") /\ Same /\ Ev[l].out = Distance(Ev[l].a, Ev[l].b)
\* a table: the keys in their order, the last row of each
Rowed(rows) == LET firsts == SelectSeq([i \in DOMAIN rows |-> i], LAMBDA i : \A j \in 1..(i - 1) : rows[j].key # rows[i].key)
               IN [k \in DOMAIN firsts |-> rows[Max({j \in DOMAIN rows : rows[j].key = rows[firsts[k]].key})]]
TTable == IsEvent("table") /\ Same /\ Ev[l].out = Rowed(Ev[l].rows)
TDone == Done /\ UNCHANGED tvars
TraceNext == TChord \/ TInvert \/ TTune \/ TSound \/ TJust \/ TNamed \/ TProduct \/ TBack \/ TName \/ TSpell \/ TRefused \/ TCode \/ TScale \/ TPitches
             \/ TKnown \/ TFind \/ TDistance \/ TTable \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
