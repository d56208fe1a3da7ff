---------------------------- MODULE MusicDesign -------------------------------
(* A walk through names, scales, chords and words.                             *)
EXTENDS Music
CONSTANTS MaxWord, MaxMoves, Part
VARIABLES note, scale, chord, word, first, moves
vars == <<note, scale, chord, word, first, moves>>
Chars == 1..2
Words == UNION {[1..n -> Chars] : n \in 1..2}
Init == /\ note = IF Part = "note" THEN [letter |-> "C", acc |-> 0, oct |-> 4] ELSE <<>>
        /\ scale = IF Part = "scale" THEN {0} ELSE {0, 4, 7}
        /\ chord \in (IF Part = "chord" THEN {<<0, 4, 7>>, <<0>>, <<0, 3, 6, 9>>, <<5, 0, 14>>} ELSE {<<0>>})
        /\ word \in (IF Part = "word" THEN Words ELSE {<<1>>}) /\ first = word /\ moves = 0
Renamed == /\ Part = "note"
           /\ note' \in [letter : DOMAIN Bases, acc : -2..2, oct : -2..10]
           /\ Abs(Pitch(note') - Pitch(note)) <= 1 /\ UNCHANGED <<scale, chord, word, first, moves>>
Rescaled == /\ Part = "scale"
            /\ \/ \E c \in 1..11 : scale' = (IF c \in scale THEN scale \ {c} ELSE scale \cup {c})
               \/ scale' = Classes(Mode(Steps(scale)))
            /\ UNCHANGED <<note, chord, word, first, moves>>
Inverts == /\ Part = "chord" /\ UNCHANGED <<note, scale, word, first>>
           /\ \/ moves < MaxMoves /\ chord' = Up(chord) /\ moves' = moves + 1
              \/ moves > -MaxMoves /\ chord' = Down(chord) /\ moves' = moves - 1
Edited == /\ Part = "word" /\ moves < MaxMoves /\ moves' = moves + 1
          /\ \/ \E i \in DOMAIN word : Len(word) > 1 /\ word' = RemoveAt(word, i)
             \/ \E i \in DOMAIN word, c \in Chars : word' = ReplaceAt(word, i, c)
             \/ \E i \in 1..(Len(word) + 1), c \in Chars : Len(word) < MaxWord /\ word' = InsertAt(word, i, c)
          /\ UNCHANGED <<note, scale, chord, first>>
Next == Renamed \/ Rescaled \/ Inverts \/ Edited
Spec == Init /\ [][Next]_vars
\* spelling a pitch and reading the name gives the pitch again
Spelling == Part = "note" => Pitch(Spelled(Pitch(note))) = Pitch(note) /\ Spelled(Pitch(note)).acc \in {0, 1}
\* scale, steps and code say the same; all modes fill the octave
Scales == /\ Classes(Steps(scale)) = scale /\ Decoded(CodeOf(scale)) = scale /\ SumOf(Steps(scale)) = 12
          /\ SumOf(Mode(Steps(scale))) = 12 /\ Cardinality(Classes(Mode(Steps(scale)))) = Cardinality(scale)
\* inversions undo each other; after all notes of it a chord is an octave away
Chords == /\ Up(Down(chord)) = chord /\ Down(Up(chord)) = chord
          /\ Inverted(chord, Len(chord)) = [i \in DOMAIN chord |-> chord[i] + 12]
          /\ Inverted(Inverted(chord, -moves), moves) = chord
          /\ SumOf(Inverted(chord, -moves)) = SumOf(chord) - (12 * moves)
\* the edit distance is a metric and never more than the edits made
Words2 == Part = "word" =>
  /\ Distance(first, word) <= moves /\ Distance(word, first) = Distance(first, word)
  /\ (Distance(first, word) = 0) <=> first = word
  /\ \A w \in Words : Distance(first, word) <= Distance(first, w) + Distance(w, word)
  /\ Abbreviates(first, word) => Distance(first, word) = Len(word) - Len(first)
=============================================================================
