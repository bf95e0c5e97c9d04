---- MODULE Ansi ----
(* Control sequences in a text, and how they are stripped (terminal/ansi).
   Item level: a text is a unique sequence of items, plain runes and control sequences, which start an attribute,
   stop one, or are of another kind.
   Piece level: a scanner groups items in pieces [start, text, stop]. *)
EXTENDS Integers, Sequences, TLC

ESC == 27
Bracket == 91
Digits == 48..57
Zero == 48
Separators == {59, 58}  \* ; :
KeyStart == {115, 104}  \* s h
KeyStop == {117, 108}   \* u l
KeyM == 109             \* m

\* s[i] is the rune after i-1 others; positions are 1..Len(s)
IsCSI(s, i) == i + 1 <= Len(s) /\ s[i] = ESC /\ s[i + 1] = Bracket

RECURSIVE DigitsFrom(_, _, _)
DigitsFrom(s, i, max) == IF max = 0 \/ i > Len(s) THEN 0
                         ELSE IF s[i] \in Digits THEN 1 + DigitsFrom(s, i + 1, max - 1) ELSE 0
\* position that follows the parameters which start at i
RECURSIVE Key(_, _)
Key(s, i) == LET e == i + DigitsFrom(s, i, 3) IN
             IF e <= Len(s) /\ s[e] \in Separators THEN Key(s, e + 1) ELSE e
HasKey(s, k) == k <= Len(s) /\ s[k] # ESC
ZeroArg(s, i) == LET n == DigitsFrom(s, i, 3) IN \A j \in i..(i + n - 1) : s[j] = Zero

\* the control sequence at position i: its last position and its kind
SeqEnd(s, i) == LET k == Key(s, i + 2) IN IF HasKey(s, k) THEN k ELSE k - 1
SeqKind(s, i) == LET k == Key(s, i + 2) IN
  IF ~HasKey(s, k) THEN "other"
  ELSE IF s[k] \in KeyStart THEN "start"
  ELSE IF s[k] \in KeyStop THEN "stop"
  ELSE IF s[k] = KeyM THEN (IF ZeroArg(s, i + 2) THEN "stop" ELSE "start")
  ELSE "other"

\* items of s from position i: <<first, last, kind>>
RECURSIVE ItemsFrom(_, _)
ItemsFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsCSI(s, i) THEN LET e == SeqEnd(s, i) IN <<<<i, e, SeqKind(s, i)>>>> \o ItemsFrom(s, e + 1)
  ELSE <<<<i, i, "plain">>>> \o ItemsFrom(s, i + 1)
Items(s) == ItemsFrom(s, 1)

\* --- pieces
NoPiece == [start |-> <<>>, text |-> <<>>, stop |-> <<>>]
Runes(p) == p.start \o p.text \o p.stop
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>> ELSE Runes(Head(ps)) \o Join(Tail(ps))

\* fields of the pieces, with their positions in the input: <<first, last, kind>>, empty ones excluded
Field(from, f, kind) == IF f = <<>> THEN <<>> ELSE <<<<from, from + Len(f) - 1, kind>>>>
RECURSIVE Fields(_, _)
Fields(ps, from) ==
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps) t == from + Len(p.start) q == t + Len(p.text) IN
       Field(from, p.start, "start") \o Field(t, p.text, "text") \o Field(q, p.stop, "stop")
       \o Fields(Tail(ps), q + Len(p.stop))

\* what must hold of the pieces ps obtained for a text s
LosslessPieces(s, ps) == Join(ps) = s
ProgressPieces(s, ps) == s # <<>> => \A i \in 1..Len(ps) : Runes(ps[i]) # <<>>
ClassifiedPieces(s, ps) ==
  LET items == Items(s)
      fs == Fields(ps, 1)
      fields == {fs[i] : i \in 1..Len(fs)}
  IN \A i \in 1..Len(items) :
       LET it == items[i] IN
       IF it[3] \in {"start", "stop"} THEN it \in fields
       ELSE \E f \in fields : f[3] = "text" /\ f[1] <= it[1] /\ it[2] <= f[2]

\* --- the scanner, as it is implemented: one action per item or run of plain runes
VARIABLES in, at, phase, cur, pieces
avars == <<in, at, phase, cur, pieces>>
AInit(s) == in = s /\ at = 1 /\ phase = "head" /\ cur = NoPiece /\ pieces = <<>>
AtEnd == at > Len(in)
Kind == IF AtEnd THEN "end" ELSE IF IsCSI(in, at) THEN SeqKind(in, at) ELSE "plain"
Here == SubSeq(in, at, SeqEnd(in, at))
Consume == at' = SeqEnd(in, at) + 1
Close(p) == pieces' = Append(pieces, p) /\ cur' = NoPiece /\ phase' = "head"
RECURSIVE PlainEnd(_, _)
PlainEnd(s, i) == IF i > Len(s) \/ IsCSI(s, i) THEN i - 1 ELSE PlainEnd(s, i + 1)

HeadStart == phase = "head" /\ Kind = "start" /\ cur.start = <<>> /\ cur' = [cur EXCEPT !.start = Here] /\ Consume /\ UNCHANGED <<in, phase, pieces>>
HeadStart2 == phase = "head" /\ Kind = "start" /\ cur.start # <<>> /\ Close(cur) /\ UNCHANGED <<in, at>>
HeadOther == phase = "head" /\ Kind = "other" /\ Close([cur EXCEPT !.text = Here]) /\ Consume /\ UNCHANGED in
HeadStop == phase = "head" /\ Kind = "stop" /\ Close([cur EXCEPT !.stop = Here]) /\ Consume /\ UNCHANGED in
Text == phase = "head" /\ Kind \in {"plain", "end"}
        /\ LET e == PlainEnd(in, at) IN cur' = [cur EXCEPT !.text = SubSeq(in, at, e)] /\ at' = e + 1
        /\ phase' = "tail" /\ UNCHANGED <<in, pieces>>
TailOther == phase = "tail" /\ Kind = "other" /\ cur.stop = <<>> /\ cur' = [cur EXCEPT !.text = @ \o Here] /\ Consume /\ UNCHANGED <<in, phase, pieces>>
TailStop == phase = "tail" /\ Kind = "stop" /\ cur.stop = <<>> /\ cur' = [cur EXCEPT !.stop = Here] /\ Consume /\ UNCHANGED <<in, phase, pieces>>
TailNext == phase = "tail" /\ ~AtEnd
            /\ (Kind \in {"plain", "start"} \/ cur.stop # <<>>)
            /\ Close(cur) /\ UNCHANGED <<in, at>>
Finish == phase = "tail" /\ AtEnd /\ pieces' = Append(pieces, cur) /\ cur' = NoPiece /\ phase' = "done" /\ UNCHANGED <<in, at>>
\* nothing is left after a piece which closed on a sequence
NothingLeft == phase = "head" /\ AtEnd /\ pieces # <<>> /\ cur = NoPiece
FinishHead == NothingLeft /\ phase' = "done" /\ UNCHANGED <<in, at, cur, pieces>>
ANext == \/ HeadStart \/ HeadStart2 \/ HeadOther \/ HeadStop \/ (~NothingLeft /\ Text)
         \/ TailOther \/ TailStop \/ TailNext \/ Finish \/ FinishHead

\* properties of the design
SoFar == Join(pieces) \o Runes(cur) = SubSeq(in, 1, at - 1)
DesignLossless == phase = "done" => LosslessPieces(in, pieces) /\ ProgressPieces(in, pieces)
DesignClassified == phase = "done" => ClassifiedPieces(in, pieces)
====
