--------------------------- MODULE NotationDesign -----------------------------
(* A composer writes one note after the other. What is written so far can be
   read back, and beams never reach into the next group or bar.                *)
EXTENDS Notation
CONSTANTS U, MaxNotes, Nested
VARIABLES grouping, notes, w, dirs
vars == <<grouping, notes, w, dirs>>
N(v) == [k |-> "n", v |-> v]
T(num, den, values) == [k |-> "t", num |-> num, den |-> den, notes |-> [i \in DOMAIN values |-> N(values[i])]]
\* U = 192 sixteenth = 12
Palette == {N(12), N(18), N(24), N(36), N(48), N(72), N(96), N(144), N(192), T(3, 2, <<24, 24, 24>>), T(3, 2, <<12, 12, 12>>)}
           \cup (IF Nested THEN {T(3, 2, <<48, 24>>), T(3, 2, <<36, 12, 24>>)} ELSE {})
Groupings == {Usual(<<4, 4>>), Usual(<<3, 4>>), Usual(<<6, 8>>), Usual(<<5, 8>>), Usual(<<2, 2>>), <<<<3, 16>>>>, <<<<1, 8>>>>, <<<<1, 8>>, <<3, 16>>>>, <<<<3, 8>>, <<2, 8>>, <<2, 8>>>>}
Groups == InUnits(grouping, U)
Metre == Sum(Groups)
G == [metre |-> Metre, borders |-> Borders(Groups), column |-> 12]
Init == grouping \in Groupings /\ notes = <<>> /\ w = Start /\ dirs = <<>>
WriteNote(n) == /\ Len(notes) < MaxNotes /\ UNCHANGED grouping
                /\ notes' = Append(notes, n)
                /\ dirs' = Append(dirs, Direction(w, Value(n), G, U))
                /\ w' = Write(w, n, G, U)
Next == \E n \in Palette : WriteNote(n)
Spec == Init /\ [][Next]_vars
Text == HStack(w.segments, <<>>)
Before(i) == Sum([j \in 1..(i - 1) |-> Value(notes[j])])
\* the number of the group a position is in, over all bars
Group(p) == (Cardinality({b \in G.borders : b <= p % Metre})) + ((p \div Metre) * Len(Groups))
Rows == Rectangular(Text) /\ (notes # <<>> => Height(Text) = (IF \E i \in DOMAIN notes : notes[i].k = "t" THEN 4 ELSE 3))
\* notes under one beam begin in the same group of the same bar; no beam is
\* open where a group ends
BeamsInGroups == \A i \in DOMAIN notes :
  /\ dirs[i] # "end" => Group(Before(i)) = Group(Before(i) + Value(notes[i])) /\ 4 * Value(notes[i]) < U
  /\ dirs[i] = "on" => i > 1 /\ dirs[i - 1] # "end" /\ Group(Before(i - 1)) = Group(Before(i))
  /\ dirs[i] = "start" => i = 1 \/ dirs[i - 1] = "end"
Open == w.open = (notes # <<>> /\ Last(dirs) # "end")
Position == w.pos = Before(Len(notes) + 1)
RECURSIVE Heads(_)
Heads(ns) == Sum([i \in DOMAIN ns |-> IF ns[i].k = "t" THEN Heads(ns[i].notes) ELSE 1])
Count(row, cs) == Cardinality({i \in DOMAIN row : row[i] \in cs})
Ground == Text[Len(Text)]
\* a head for every note, a line for every bar which was left
AllNotes == notes # <<>> => /\ Count(Ground, {"b", "w"}) = Heads(notes)
                            /\ Count(Ground, {"l"}) = (Before(Len(notes)) \div Metre)
\* a symbol says its value, up to the further dots
Values == {12, 18, 24, 36, 48, 72, 96, 144, 192, 288}
Readable == \A x, y \in Values : x # y => Glyph(x, U, "start") # Glyph(y, U, "start")
\* from the columns to the next note one can read how long a note lasts
Stretched == \A i \in DOMAIN notes : Value(notes[i]) % 12 = 0 =>
  LET one == Write([Start EXCEPT !.pos = Before(i), !.bar = Before(i) \div Metre], notes[i], G, U).segments
  IN Len(one) = 1 + Max({1, Value(notes[i]) \div 12})
=============================================================================
