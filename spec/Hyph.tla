---- MODULE Hyph ----
(* Hyphenation with patterns (Liang) and exceptions (wordbreak/hyphenator).
   A dictionary is [pats: buckets of patterns by hash, exc: exceptions, maxlen]; a pattern or an exception is [l: letters, v: values],
   v[m] being the value of the gap before letter m. A word is a sequence of runes; low is the same word in lower case.
   A break is the number k of runes to its left. *)
EXTENDS Integers, Sequences, FiniteSets

Dot == 46
Dash == 45
Hashes == 4096
HashStep(h, c) == (h * 31 + c) % Hashes
RECURSIVE Hash(_, _)
Hash(h, s) == IF s = <<>> THEN h ELSE Hash(HashStep(h, Head(s)), Tail(s))
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

\* --- reading the entries of a pattern file, e.g. "a5ban" or "ta-ble"
IsDigit(c) == c \in 48..57
RECURSIVE ReadPattern(_, _, _, _)
ReadPattern(raw, letters, values, pending) ==
  IF raw = <<>> THEN [l |-> letters, v |-> IF pending = -1 THEN values ELSE Append(values, pending)]
  ELSE IF IsDigit(Head(raw)) THEN ReadPattern(Tail(raw), letters, values, Head(raw) - 48)
  ELSE ReadPattern(Tail(raw), Append(letters, Head(raw)), Append(values, IF pending = -1 THEN 0 ELSE pending), -1)
PatternOf(raw) == ReadPattern(raw, <<>>, <<>>, -1)
RECURSIVE ReadException(_, _, _, _)
ReadException(raw, letters, values, dash) ==
  IF raw = <<>> THEN [l |-> letters, v |-> values]
  ELSE IF Head(raw) = Dash THEN ReadException(Tail(raw), letters, values, 1)
  ELSE ReadException(Tail(raw), Append(letters, Head(raw)), Append(values, dash), 0)
ExceptionOf(raw) == ReadException(raw, <<>>, <<>>, 0)

\* --- patterns that occur in a word enclosed in dots, as <<position, values>>
RECURSIVE Grow(_, _, _, _, _)
Grow(d, w, i, j, h) ==
  IF j > Len(w) \/ j - i + 1 > d.maxlen THEN {}
  ELSE LET g == HashStep(h, w[j]) b == d.pats[g + 1]
           hits == {m \in 1..Len(b) : b[m].l = SubSeq(w, i, j)}
       IN {<<i, b[m].v>> : m \in hits} \cup Grow(d, w, i, j + 1, g)
Occurrences(d, w) == UNION {Grow(d, w, i, i, 0) : i \in 1..Len(w)}
\* the value of the break after k runes: the highest one, over all patterns that occur
Value(occ, k) == Max0({o[2][k + 3 - o[1]] : o \in {x \in occ : (k + 3 - x[1]) \in 1..Len(x[2])}})

Exceptions(d, low) == {m \in 1..Len(d.exc) : d.exc[m].l = low}
IsException(d, low) == Exceptions(d, low) # {}
Odd(d, low) ==   \* the breaks allowed by the dictionary
  LET n == Len(low) IN
  IF IsException(d, low)
  THEN LET e == d.exc[CHOOSE m \in Exceptions(d, low) : TRUE] IN {k \in 1..(n - 1) : e.v[k + 1] % 2 = 1}
  ELSE LET occ == Occurrences(d, <<Dot>> \o low \o <<Dot>>) IN {k \in 1..(n - 1) : Value(occ, k) % 2 = 1}

\* --- the breaks that are retained
Retained(k, prev, n, c) == k - prev >= c.left /\ n - k >= c.right
RECURSIVE Retain(_, _, _, _, _)
Retain(odd, k, prev, n, c) ==
  IF k >= n THEN <<>>
  ELSE IF k \in odd /\ Retained(k, prev, n, c) THEN <<k>> \o Retain(odd, k + 1, k, n, c)
  ELSE Retain(odd, k + 1, prev, n, c)
Kept(hyphen, n, c) == hyphen \/ n < c.minLen
Breaks(d, low, hyphen, c) == IF Kept(hyphen, Len(low), c) THEN <<>> ELSE Retain(Odd(d, low), 1, 0, Len(low), c)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Parts(w, breaks) ==
  LET b == <<0>> \o breaks \o <<Len(w)>> IN [i \in 1..(Len(b) - 1) |-> SubSeq(w, b[i] + 1, b[i + 1])]
PartsOf(d, w, low, hyphen, c) == Parts(w, Breaks(d, low, hyphen, c))

\* --- C11: whatever the dictionary
RECURSIVE Sizes(_, _)
Sizes(parts, m) == IF m = 0 THEN 0 ELSE Sizes(parts, m - 1) + Len(parts[m])
Legal(w, hyphen, c, parts) ==
  /\ parts # <<>>
  /\ Concat(parts) = w
  /\ IF Kept(hyphen, Len(w), c) THEN parts = <<w>>
     ELSE /\ \A i \in 1..Len(parts) : parts[i] # <<>>
          /\ \A i \in 1..(Len(parts) - 1) : Len(parts[i]) >= c.left /\ Len(w) - Sizes(parts, i) >= c.right
====
