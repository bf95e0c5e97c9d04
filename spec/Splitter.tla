---- MODULE Splitter ----
(* A scanner that splits runes at separators. Separators are dropped (tokenizer, FieldsFunc), or kept each as a part
   of its own (punctuator, SplitWord). sep tells which runes of the input are separators. *)
EXTENDS Integers, Sequences, TLC

VARIABLES input, sep, keep,
          i,     \* runes scanned so far
          start, \* runes before the current part, -1 if there is none
          out    \* parts found so far
svars == <<input, sep, keep, i, start, out>>

SInit(in, isSep, keepSep) == input = in /\ sep = isSep /\ keep = keepSep /\ i = 0 /\ start = -1 /\ out = <<>>

Current(to) == IF start >= 0 THEN <<SubSeq(input, start + 1, to)>> ELSE <<>>
Done == i > Len(input)

Separator ==
  /\ i < Len(input) /\ sep[i + 1]
  /\ out' = out \o Current(i) \o (IF keep THEN <<<<input[i + 1]>>>> ELSE <<>>)
  /\ start' = -1
  /\ i' = i + 1
  /\ UNCHANGED <<input, sep, keep>>
Ordinary ==
  /\ i < Len(input) /\ ~sep[i + 1]
  /\ start' = IF start < 0 THEN i ELSE start
  /\ i' = i + 1
  /\ UNCHANGED <<input, sep, keep, out>>
End ==
  /\ i = Len(input)
  /\ out' = out \o Current(i)
  /\ start' = -1
  /\ i' = i + 1
  /\ UNCHANGED <<input, sep, keep>>
SNext == Separator \/ Ordinary \/ End

\* --- properties of the design
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
RECURSIVE Filter(_, _)
Filter(s, keepIt) == IF s = <<>> THEN <<>>
                     ELSE (IF Head(keepIt) THEN <<Head(s)>> ELSE <<>>) \o Filter(Tail(s), Tail(keepIt))
Scanned == IF i > Len(input) THEN Len(input) ELSE i
Lossless ==
  LET seen == SubSeq(input, 1, Scanned)
      kept == [j \in 1..Scanned |-> keep \/ ~sep[j]]
  IN Flatten(out \o Current(Scanned)) = Filter(seen, kept)
NeverEmpty == \A j \in 1..Len(out) : out[j] # <<>>
Isolated == LET seps == {input[j] : j \in {n \in 1..Len(input) : sep[n]}} IN
  \A j \in 1..Len(out) : \A n \in 1..Len(out[j]) : out[j][n] \in seps => keep /\ Len(out[j]) = 1
\* two ordinary parts in a row are separated by a separator, when it is kept
Maximal == LET seps == {input[j] : j \in {n \in 1..Len(input) : sep[n]}} IN
  keep => \A j \in 1..(Len(out) - 1) : out[j][1] \in seps \/ out[j + 1][1] \in seps
====
