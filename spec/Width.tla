---- MODULE Width ----
(* Terminal width of a rune, for Unicode 15.0 (terminal/runes). The tables are the ones of the Unicode data
   (data/width.json, audited against another copy of these data). A configuration is [ea, skip, amb]. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Tables == JsonDeserialize(IOEnv.VF_DATA \o "/width.json")

\* binary search in an increasing sequence of disjoint intervals
RECURSIVE Within(_, _, _, _)
Within(r, t, lo, hi) ==
  IF lo > hi THEN FALSE
  ELSE LET mid == (lo + hi) \div 2 IN
       IF t[mid][2] < r THEN Within(r, t, mid + 1, hi)
       ELSE IF t[mid][1] > r THEN Within(r, t, lo, mid - 1)
       ELSE TRUE
In(r, t) == Within(r, t, 1, Len(t))

Combining == Tables.combining
Wide == Tables.doublewidth
Ambiguous == Tables.ambiguous
Narrow == Tables.narrow
Emoji == Tables.emoji
NonPrint == Tables.nonprint

TwoEmDash == 11834
ThreeEmDash == 11835
Replacement == 65533
Invalid(r) == r < 0 \/ r > 1114111 \/ (r >= 55296 /\ r <= 57343) \/ r = Replacement
Control(r) == r < 32 \/ (r >= 127 /\ r <= 159) \/ r = 173

\* cfg.ea: East Asian; cfg.skip: neutral emoji are wide in this context; cfg.amb: width of ambiguous runes
WidthOf(r, cfg) ==
  IF Invalid(r) \/ Control(r) THEN 0
  ELSE IF r < 768 /\ ~cfg.ea THEN 1
  ELSE IF r = ThreeEmDash THEN 4
  ELSE IF r = TwoEmDash THEN 3
  ELSE IF In(r, NonPrint) \/ In(r, Combining) THEN 0
  ELSE IF In(r, Narrow) THEN 1
  ELSE IF In(r, Wide) THEN 2
  ELSE IF ~cfg.ea THEN 1
  ELSE IF In(r, Ambiguous) THEN cfg.amb
  ELSE IF cfg.skip /\ In(r, Emoji) THEN 2
  ELSE 1

Default == [ea |-> FALSE, skip |-> FALSE, amb |-> 2]
\* options that are not set in a call have their default value
Resolve(o) == [ea |-> IF "ea" \in DOMAIN o THEN o.ea ELSE Default.ea,
               skip |-> IF "skip" \in DOMAIN o THEN o.skip ELSE Default.skip,
               amb |-> IF "amb" \in DOMAIN o THEN o.amb ELSE Default.amb]

\* the width of a text is the sum of the widths of its runes (in halves: texts are long)
RECURSIVE SumOf(_, _, _, _)
SumOf(s, cfg, lo, hi) ==
  IF lo > hi THEN 0
  ELSE IF lo = hi THEN WidthOf(s[lo], cfg)
  ELSE LET mid == (lo + hi) \div 2 IN SumOf(s, cfg, lo, mid) + SumOf(s, cfg, mid + 1, hi)
Sum(s, cfg) == SumOf(s, cfg, 1, Len(s))

\* the runes at which the width may change: it is constant between two of them
Edges == {0, 32, 127, 160, 173, 174, 768, TwoEmDash, ThreeEmDash, ThreeEmDash + 1, 55296, 57344, Replacement, Replacement + 1, 1114112}
  \cup UNION {UNION {{t[i][1], t[i][2] + 1} : i \in 1..Len(t)} : t \in {Combining, Wide, Ambiguous, Narrow, Emoji, NonPrint}}
====
