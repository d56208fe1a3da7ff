-------------------------------- MODULE Music ---------------------------------
(* Names and numbers of music: note names and pitches, temperaments, scales,   *)
(* inversions of chords, and finding things by (abbreviated) names.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Only(S) == CHOOSE x \in S : TRUE
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))

(* Scientific pitch notation: a letter, accidentals (-2 to 2) and an octave.   *)
Letters == <<"C", "D", "E", "F", "G", "A", "B">>
Bases == [C |-> 0, D |-> 2, E |-> 4, F |-> 5, G |-> 7, A |-> 9, B |-> 11]
Pitch(n) == Bases[n.letter] + n.acc + (12 * (n.oct + 1))
Natural(class) == \E x \in DOMAIN Bases : Bases[x] = class
\* naturals, or else sharps
Spelled(p) == LET class == p % 12
                  acc == IF Natural(class) THEN 0 ELSE 1
              IN [letter |-> CHOOSE x \in DOMAIN Bases : Bases[x] = class - acc, acc |-> acc, oct |-> (p \div 12) - 1]

(* Temperament: twelve cent values over C, so that the ninth (A, pitch 69 in   *)
(* its octave) sounds the reference. Cents over the reference, of pitch p.     *)
Cents(c, octave, p) == c[(p % 12) + 1] - c[10] + (octave * ((p \div 12) - 5))
Just == << <<1, 1>>, <<16, 15>>, <<9, 8>>, <<6, 5>>, <<5, 4>>, <<4, 3>>, <<45, 32>>, <<3, 2>>, <<8, 5>>, <<5, 3>>, <<9, 5>>, <<15, 8>> >>

(* Scales: steps from one pitch class to the next and back to the octave. The  *)
(* code of a scale is the set of its pitch classes, in binary.                 *)
Steps(classes) == LET s == SetToSortSeq(classes, <)
                  IN [i \in DOMAIN s |-> (IF i = Len(s) THEN 12 ELSE s[i + 1]) - s[i]]
Classes(steps) == {SumOf(SubSeq(steps, 1, i - 1)) % 12 : i \in DOMAIN steps}
Pitches(steps) == [i \in DOMAIN steps |-> SumOf(SubSeq(steps, 1, i - 1)) % 12]
CodeOf(classes) == SumOf(SetToSeq({Pow2(c) : c \in classes}))
Decoded(code) == {c \in 0..11 : (code \div Pow2(c)) % 2 = 1}
Mode(steps) == Tail(steps) \o <<steps[1]>>

(* Chords: the lowest goes up an octave, or the highest down.                  *)
Up(chord) == Tail(chord) \o <<chord[1] + 12>>
Down(chord) == <<chord[Len(chord)] - 12>> \o Front(chord)
RECURSIVE Inverted(_, _)
Inverted(chord, n) == IF n = 0 THEN chord ELSE IF n > 0 THEN Inverted(Up(chord), n - 1) ELSE Inverted(Down(chord), n + 1)

(* Edit distance: insertions, deletions and substitutions. Row by row.         *)
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE NextRow(_, _, _, _, _)
NextRow(prev, b, ch, row, j) ==
  IF j > Len(b) THEN row
  ELSE NextRow(prev, b, ch, Append(row, Min2(Min2(prev[j + 1] + 1, row[j] + 1), prev[j] + (IF b[j] = ch THEN 0 ELSE 1))), j + 1)
RECURSIVE Rows(_, _, _)
Rows(a, b, prev) == IF a = <<>> THEN prev ELSE Only({Rows(Tail(a), b, r) : r \in {TLCEval(NextRow(prev, b, a[1], <<prev[1] + 1>>, 1))}})
Distance(a, b) == Rows(a, b, [i \in 1..(Len(b) + 1) |-> i - 1])[Len(b) + 1]

(* Finding by name: the name itself, or else the only item it abbreviates.     *)
RECURSIVE Abbreviates(_, _)
Abbreviates(name, key) ==
  IF name = <<>> THEN TRUE
  ELSE IF key = <<>> THEN FALSE
  ELSE IF name[1] = key[1] THEN Abbreviates(Tail(name), Tail(key)) ELSE Abbreviates(name, Tail(key))
\* an abbreviation begins like its item; where names that begin differently
\* would be abbreviated as well, either reading may be taken
Loose(keys, name) == {i \in DOMAIN keys : Abbreviates(name, keys[i])}
Strict(keys, name) == {i \in Loose(keys, name) : keys[i][1] = name[1]}
Found(keys, name) ==
  LET exact == {i \in DOMAIN keys : keys[i] = name}
      unique(S) == IF Cardinality(S) = 1 THEN Only(S) ELSE 0
  IN IF exact # {} THEN {Only(exact)} ELSE {unique(Strict(keys, name)), unique(Loose(keys, name))}
=============================================================================
