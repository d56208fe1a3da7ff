------------------------------ MODULE Notation --------------------------------
(* Notes written as sheet music made of characters. A text is a sequence of
   rows (the topmost one first), a row a sequence of characters; the characters
   of the beams and heads have letters here:
     r t q ~   one beam: begins, goes on, ends, in between
     R T Q =   two beams
     l         stem or bar line      b w   black and white head
   Durations are integers, u of them make a whole note. A note is
     [k |-> "n", v |-> duration]  or
     [k |-> "t", num |-> , den |-> , notes |-> notes]   (a tuplet).             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, TLC

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fill(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]

(* Texts *)
Height(text) == Len(text)
Width(text) == Max({0} \cup {Len(text[i]) : i \in DOMAIN text})
Rectangular(text) == \A i \in DOMAIN text : Len(text[i]) = Width(text)
\* rows of a filling character above
Heighten(text, height, c) == Fill(Fill(c, Width(text)), height - Height(text)) \o text
RECURSIVE Joined(_, _)
Joined(rows, sep) == IF rows = <<>> THEN <<>> ELSE IF Len(rows) = 1 THEN rows[1] ELSE rows[1] \o sep \o Joined(Tail(rows), sep)
\* side by side, standing on the same ground
HStack(texts, sep) ==
  LET height == Max({0} \cup {Height(texts[i]) : i \in DOMAIN texts})
      tall == [i \in DOMAIN texts |-> Heighten(texts[i], height, " ")]
  IN [r \in 1..height |-> Joined([i \in DOMAIN texts |-> tall[i][r]], sep)]
\* in the middle; the larger half goes left if the width is odd
Centre(s, width, c) ==
  LET pad == IF width > Len(s) THEN width - Len(s) ELSE 0
      left == (pad \div 2) + (IF (pad % 2 = 1) /\ (width % 2 = 1) THEN 1 ELSE 0)
  IN Fill(c, left) \o s \o Fill(c, pad - left)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<Digit[n + 1]>> ELSE Digits(n \div 10) \o <<Digit[(n % 10) + 1]>>

(* Values *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Value(_)
Value(n) == IF n.k = "n" THEN n.v ELSE (Sum([i \in DOMAIN n.notes |-> Value(n.notes[i])]) * n.den) \div n.num
\* 1, 2, ... dots make 3/2, 7/4 and 15/8 of a note
Multiples == {<<1, 1>>, <<3, 2>>, <<7, 4>>, <<15, 8>>}
Beams(v, u) == IF \E m \in Multiples : v * 8 * m[2] = u * m[1] THEN 1
               ELSE IF \E m \in Multiples : v * 16 * m[2] = u * m[1] THEN 2 ELSE 0
Dotted(v, u) == v \div Gcd(v, u) = 3

(* Notes and beams *)
Chars == <<<<" ", " ", " ", " ", " ">>, <<"r", "~", "t", "~", "q">>, <<"R", "=", "T", "=", "Q">>>>
Stem(v, u) == IF v < u THEN <<" ", "l">> ELSE <<" ", " ">>
Beam(v, u, dir) ==
  LET c == Chars[Beams(v, u) + 1]
  IN IF Beams(v, u) = 0 THEN Stem(v, u)
     ELSE CASE dir = "start" -> <<" ", c[1]>> [] dir = "on" -> <<c[2], c[3]>> [] dir = "end" -> <<c[4], c[5]>>
Glyph(v, u, dir) == <<Beam(v, u, dir), Stem(v, u), <<IF 2 * v >= u THEN "w" ELSE "b", IF Dotted(v, u) THEN "." ELSE " ">>>>
Column(beams) == <<<<Chars[beams + 1][2]>>, <<" ">>, <<" ">>>>
BarLine == Fill(<<" ", "l", " ">>, 3)
\* points within a bar where another group begins
Borders(groups) == {Sum(SubSeq(groups, 1, i - 1)) : i \in DOMAIN groups} \ {0}
\* the note reaches the end of its group or bar
Closes(pos, v, metre, borders, u) ==
  \/ 4 * v >= u
  \/ (pos % metre) + v >= metre
  \/ \E b \in borders : pos % metre < b /\ b <= (pos % metre) + v

(* The writer: the position, whether a beam is open, the bar, the text so far.
   g: metre, borders, the duration of a column (0: not stretched)               *)
Start == [pos |-> 0, open |-> FALSE, bar |-> 0, segments |-> <<>>]
RECURSIVE Write(_, _, _, _), Lines(_, _, _), Written(_, _, _, _)
Direction(w, v, g, u) == IF Closes(w.pos, v, g.metre, g.borders, u) THEN "end" ELSE IF w.open THEN "on" ELSE "start"
Tupled(n, u, explicit) ==
  LET values == [i \in DOMAIN n.notes |-> Value(n.notes[i])]
      text == Lines(n.notes, [metre |-> Sum(values), borders |-> {}, column |-> 0], u)
      label == <<" ">> \o Digits(n.num) \o (IF explicit \/ n.num # n.den + 1 THEN <<":">> \o Digits(n.den) ELSE <<>>) \o <<" ">>
      row == Centre(label, Width(text), "~")
  IN <<<<"r">> \o SubSeq(row, 2, Len(row) - 1) \o <<"q">>>> \o text
Write(w, n, g, u) ==
  LET v == Value(n)
      bar == w.pos \div g.metre
      dir == Direction(w, v, g, u)
      glyph == IF n.k = "t" THEN Tupled(n, u, TRUE) ELSE Glyph(v, u, dir)
      columns == IF g.column = 0 \/ v \div g.column < 1 THEN 1 ELSE v \div g.column
  IN [pos |-> w.pos + v, open |-> dir # "end", bar |-> bar,
      segments |-> w.segments \o Fill(BarLine, bar - w.bar) \o <<glyph>> \o Fill(Column(IF dir = "end" THEN 0 ELSE Beams(v, u)), columns)]
Written(w, notes, g, u) == IF notes = <<>> THEN w ELSE Written(Write(w, Head(notes), g, u), Tail(notes), g, u)
Lines(notes, g, u) == HStack(Written(Start, notes, g, u).segments, <<>>)
Shortest(notes) == Min({Value(notes[i]) : i \in DOMAIN notes})
\* notes which can be written: nothing below a sixteenth, in no tuplet either
RECURSIVE Writable(_, _)
Writable(notes, u) == \A i \in DOMAIN notes : 16 * Value(notes[i]) >= u /\ (notes[i].k = "t" => Writable(notes[i].notes, u))

(* Time signatures. A grouping is a sequence of fractions <<num, den>>; all
   denominators are powers of two.                                             *)
Common(grouping) == Max({grouping[i][2] : i \in DOMAIN grouping})
Expanded(grouping) == [i \in DOMAIN grouping |-> <<(grouping[i][1] * Common(grouping)) \div grouping[i][2], Common(grouping)>>]
MetreOf(grouping) == <<Sum([i \in DOMAIN grouping |-> Expanded(grouping)[i][1]]), Common(grouping)>>
Plain(metre) == metre[1] % 2 = 0 \/ metre[1] % 3 = 0
Signature(grouping) ==
  LET metre == MetreOf(grouping)
      parts == [i \in DOMAIN grouping |-> Digits(Expanded(grouping)[i][1])]
      num == IF Plain(metre) THEN Digits(metre[1]) ELSE Joined(parts, <<"+">>)
      den == Digits(metre[2])
      width == Max({Len(num), Len(den)})
  IN HStack(<<<<Centre(num, width, " "), Fill("-", width), Centre(den, width, " ")>>, <<<<" ">>>>>>, <<>>)
\* the groups a metre comes with; metres of the same length but another beat differ
Usual(metre) == CASE metre = <<4, 4>> -> <<<<1, 4>>, <<1, 4>>, <<1, 4>>, <<1, 4>>>>
                  [] metre = <<3, 4>> -> <<<<1, 4>>, <<1, 4>>, <<1, 4>>>>
                  [] metre = <<2, 4>> -> <<<<1, 4>>, <<1, 4>>>>
                  [] metre = <<2, 2>> -> <<<<1, 2>>, <<1, 2>>>>
                  [] metre = <<6, 8>> -> <<<<3, 8>>, <<3, 8>>>>
                  [] metre = <<9, 8>> -> <<<<3, 8>>, <<3, 8>>, <<3, 8>>>>
                  [] metre = <<5, 8>> -> <<<<3, 8>>, <<1, 4>>>>
InUnits(grouping, u) == [i \in DOMAIN grouping |-> (grouping[i][1] * u) \div grouping[i][2]]
\* the whole sheet
Sheet(notes, grouping, stretch, signed, u) ==
  LET groups == InUnits(grouping, u)
      g == [metre |-> Sum(groups), borders |-> Borders(groups), column |-> IF stretch THEN Shortest(notes) ELSE 0]
      segments == Written(Start, notes, g, u).segments
  IN HStack((IF signed THEN <<Signature(grouping)>> ELSE <<>>) \o segments, <<>>)
=============================================================================
