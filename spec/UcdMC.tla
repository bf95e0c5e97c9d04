---- MODULE UcdMC ----
(* Writes the two files line by line, in increasing order of code points, and reads them as the generator does. *)
EXTENDS Ucd, TLC, Json
CONSTANTS MaxLines, MaxEmoji, Classes
VARIABLES east, emoji, at, tables, said, phase
vars == <<east, emoji, at, tables, said, phase>>
Start == [east |-> 65533, emoji |-> 12285]   \* on both sides of U+10000, of U+3000
RECURSIVE Hex(_)
Hex(n) == (IF n < 16 THEN <<>> ELSE Hex(n \div 16)) \o << (IF (n % 16) < 10 THEN 48 ELSE 55) + (n % 16) >>
Code(n) == LET h == Hex(n) IN [i \in 1..(IF Len(h) < 4 THEN 4 - Len(h) ELSE 0) |-> 48] \o h
Interval(lo, hi) == IF lo = hi THEN Code(lo) ELSE Code(lo) \o <<Dot, Dot>> \o Code(hi)
Comment == <<Space, Space, Hash, Space, 77, 110, Space>>
Init == east = <<>> /\ emoji = <<>> /\ at = Start.east /\ tables = NoTables /\ said = [k \in Kinds |-> {}] /\ phase = "east"
Take(line, lo, hi, kinds) ==
  /\ tables' = ReadLine(tables, phase, line)
  /\ said' = [k \in Kinds |-> IF k \in kinds THEN said[k] \cup (lo..hi) ELSE said[k]]
  /\ at' = hi
Kind(c) == CASE c \in {"W", "F"} -> {"doublewidth"} [] c = "A" -> {"ambiguous"} [] c = "Na" -> {"narrow"} [] c = "N" -> {"neutral"} [] OTHER -> {}
East == /\ phase = "east" /\ Len(east) < MaxLines
        /\ \E gap \in 1..2, len \in 0..1, c \in Classes, m \in BOOLEAN :
             LET lo == at + gap
                 hi == lo + len
                 line == Interval(lo, hi) \o <<Semi>> \o ClassOf[c] \o Comment \o (IF m THEN COMBINING \o <<Space, 66>> ELSE <<66, Semi, 87, Space>>)
             IN east' = Append(east, line) /\ Take(line, lo, hi, Kind(c) \cup (IF m THEN {"combining"} ELSE {}))
        /\ UNCHANGED <<emoji, phase>>
Noise == /\ phase = "east" /\ Len(east) = 1 /\ Len(east) < MaxLines
         /\ \E s \in {<<>>, <<Hash>> \o Code(65539) \o <<Semi, 87, Space>> \o COMBINING} : east' = Append(east, s) /\ Take(s, at, at, {})
         /\ UNCHANGED <<emoji, phase>>
Turn == phase = "east" /\ phase' = "emoji" /\ at' = Start.emoji /\ UNCHANGED <<east, emoji, tables, said>>
Emoji == /\ phase = "emoji" /\ Len(emoji) < MaxEmoji
         /\ \E gap \in 1..2, len \in 0..1, p \in BOOLEAN :
              LET lo == at + gap
                  hi == lo + len
                  line == Interval(lo, hi) \o <<Space, Space, Semi, Space>> \o (IF p THEN Pictographic \o <<Hash, Space>> ELSE <<69, 109, 111, 106, 105, Space, Hash, Space>>) \o <<66>>
              IN emoji' = Append(emoji, line) /\ Take(line, lo, hi, IF p THEN {"emoji"} ELSE {})
         /\ UNCHANGED <<east, phase>>
Next == East \/ Noise \/ Turn \/ Emoji
Spec == Init /\ [][Next]_vars
\* the tables hold what the files say, and can be searched
Exact == \A k \in Kinds : UNION {tables[k][i][1]..tables[k][i][2] : i \in 1..Len(tables[k])} = said[k]
Searchable == \A k \in Kinds : Ordered(tables[k])
Found == \A k \in Kinds : \A r \in (Start.east..(Start.east + 4 * MaxLines)) \cup (Start.emoji..(Start.emoji + 4 * MaxEmoji)) : Within(r, tables[k], 1, Len(tables[k])) <=> r \in said[k]
\* a rune has one class
Classified == \A k1, k2 \in Kinds \ {"combining", "emoji"} : k1 # k2 => said[k1] \cap said[k2] = {}
Emit == phase = "emoji" => PrintT("@@" \o ToJson([east |-> east, emoji |-> emoji]))
====
