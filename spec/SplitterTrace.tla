---- MODULE SplitterTrace ----
(* The parts returned by the code for an input must be the ones of the scanner. The classes of the runes of the
   input are facts recorded from the environment (Go's unicode package): a mark is a '|' or a punctuation which is
   not a hyphen. one[j]: the answer of IsPunctuation or IsHyphen on the j-th part. *)
EXTENDS Splitter, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, verdict
vars == <<svars, l, verdict>>
Mark(c) == c.r = 124 \/ (c.punct /\ ~c.hyphen)
IsSep(rec, c) == CASE rec.kind = "token" -> c.space
                   [] rec.kind \in {"punct", "ispunct"} -> Mark(c)
                   [] rec.kind \in {"hyphen", "ishyphen"} -> c.hyphen
                   [] rec.kind = "fields" -> \E j \in 1..Len(rec.seps) : rec.seps[j] = c.r
SepsOf(rec) == [j \in 1..Len(rec.in) |-> IsSep(rec, rec.cls[j])]
Keeps(rec) == rec.kind \in {"punct", "hyphen", "ispunct", "ishyphen"}
Init == l \in 1..Len(Trace) /\ verdict = "ok" /\ SInit(Trace[l].in, SepsOf(Trace[l]), Keeps(Trace[l]))
Expected ==
  IF Trace[l].kind \in {"ispunct", "ishyphen"}
  THEN [parts |-> <<>>, one |-> <<Len(input) = 1 /\ sep[1]>>]
  ELSE LET marks == {input[j] : j \in {n \in 1..Len(input) : sep[n]}} IN
       [parts |-> out', one |-> IF keep THEN [j \in 1..Len(out') |-> out'[j][1] \in marks] ELSE <<>>]
\* several steps Ordinary at once, up to the next separator
RECURSIVE NextSep(_)
NextSep(n) == IF n > Len(input) \/ sep[n] THEN n ELSE NextSep(n + 1)
Run == /\ i < Len(input) /\ ~sep[i + 1]
       /\ i' = NextSep(i + 1) - 1
       /\ start' = (IF start < 0 THEN i ELSE start)
       /\ UNCHANGED <<input, sep, keep, out>>
Next ==
  /\ verdict = "ok" /\ ~Done /\ (Separator \/ Run \/ End) /\ UNCHANGED l
  /\ verdict' = IF Done' => Expected = Trace[l].obs THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok" \/ (PrintT(<<"MISMATCH", l, "spec", out, "code", Trace[l].obs>>) /\ FALSE)
====
