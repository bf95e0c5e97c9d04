---- MODULE Ucd ----
(* The generator of the width tables (terminal/runes/build_tables.go): two files of the Unicode Character Database are
   read line by line, as texts; each table is a sequence of intervals, in increasing order, adjacent ones being merged.
     EastAsianWidth.txt:  XXXX;Class # comment        or  XXXX..YYYY;Class # comment
     emoji-data.txt:      XXXX      ; Property # ...   or  XXXX..YYYY    ; Property # ...
   Empty lines, and those which start with '#', say nothing. *)
EXTENDS Integers, Sequences, FiniteSets

Hash == 35  Dot == 46  Semi == 59  Space == 32
COMBINING == <<67, 79, 77, 66, 73, 78, 73, 78, 71>>
Pictographic == <<69, 120, 116, 101, 110, 100, 101, 100, 95, 80, 105, 99, 116, 111, 103, 114, 97, 112, 104, 105, 99>>
ClassOf == [W |-> <<87>>, F |-> <<70>>, A |-> <<65>>, H |-> <<72>>, N |-> <<78>>, Na |-> <<78, 97>>]
Kinds == {"combining", "doublewidth", "ambiguous", "narrow", "neutral", "emoji"}

Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
\* the number which starts at i: [v, next]
RECURSIVE Number(_, _, _)
Number(s, i, v) == IF Digit(At(s, i)) >= 0 THEN Number(s, i + 1, 16 * v + Digit(s[i])) ELSE [v |-> v, next |-> i]
RECURSIVE Skip(_, _)
Skip(s, i) == IF At(s, i) = Space THEN Skip(s, i + 1) ELSE i
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i > Len(s) \/ s[i] = Space \/ s[i] = Hash THEN i ELSE WordEnd(s, i + 1)
Contains(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : s[i] = w[1] /\ SubSeq(s, i, i + Len(w) - 1) = w

Silent(line) == line = <<>> \/ line[1] = Hash
Read(line) ==
  LET a == Number(line, 1, 0)
      two == At(line, a.next) = Dot
      b == IF two THEN Number(line, a.next + 2, 0) ELSE a
      from == Skip(line, Skip(line, b.next) + 1)   \* after the semicolon
  IN [lo |-> a.v, hi |-> b.v, value |-> SubSeq(line, from, WordEnd(line, from) - 1)]

\* what a line says: the tables to which its interval belongs
SaysEast(line) ==
  IF Silent(line) THEN {}
  ELSE LET v == Read(line).value IN
       (IF Contains(line, COMBINING) THEN {"combining"} ELSE {}) \cup
       (IF v \in {ClassOf.W, ClassOf.F} THEN {"doublewidth"} ELSE IF v = ClassOf.A THEN {"ambiguous"} ELSE IF v = ClassOf.Na THEN {"narrow"}
        ELSE IF v = ClassOf.N THEN {"neutral"} ELSE {})
\* the emoji of ASCII and Latin-1 are left out: they are texts
SaysEmoji(line) == IF Silent(line) THEN {} ELSE IF Read(line).value = Pictographic /\ Read(line).hi >= 255 THEN {"emoji"} ELSE {}
Says(file, line) == IF file = "east" THEN SaysEast(line) ELSE SaysEmoji(line)

NoTables == [k \in Kinds |-> <<>>]
Add(t, lo, hi) == IF t # <<>> /\ t[Len(t)][2] + 1 = lo THEN [t EXCEPT ![Len(t)] = <<@[1], hi>>] ELSE Append(t, <<lo, hi>>)
ReadLine(ts, file, line) ==
  LET w == Says(file, line) IN
  IF w = {} THEN ts ELSE LET r == Read(line) IN [k \in Kinds |-> IF k \in w THEN Add(ts[k], r.lo, r.hi) ELSE ts[k]]

\* tables in which runes may be searched by dichotomy, with no interval that could be merged
Ordered(t) == \A i \in 1..Len(t) : t[i][1] <= t[i][2] /\ (i < Len(t) => t[i][2] + 1 < t[i + 1][1])
RECURSIVE Within(_, _, _, _)
Within(r, t, lo, hi) ==
  IF lo > hi THEN FALSE
  ELSE LET mid == (lo + hi) \div 2 IN
       IF t[mid][2] < r THEN Within(r, t, mid + 1, hi)
       ELSE IF t[mid][1] > r THEN Within(r, t, lo, mid - 1)
       ELSE TRUE
====
