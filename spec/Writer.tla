---- MODULE Writer ----
(* A writer of runes over a sink of bytes that may stop accepting bytes (terminal/runes/runesio.Writer). *)
EXTENDS Utf8, TLC

VARIABLES left,  \* number of bytes that the sink still accepts
          sunk,  \* all bytes received by the sink
          due,   \* all bytes that the caller asked to write
          ret    \* result of the last call
wvars == <<left, sunk, due, ret>>

WInit(budget) == left = budget /\ sunk = <<>> /\ due = <<>> /\ ret = [none |-> TRUE]

Min(a, b) == IF a < b THEN a ELSE b
Sink(bytes) ==
  LET n == Min(left, Len(bytes)) IN
  /\ left' = left - n
  /\ sunk' = sunk \o SubSeq(bytes, 1, n)
  /\ due' = due \o bytes
  /\ ret' = [n |-> n, err |-> IF n < Len(bytes) THEN "sink" ELSE "none", got |-> SubSeq(bytes, 1, n)]

WriteRune(r) == Sink(Encode(r))
WriteRunes(s) == Sink(EncodeAll(s))
WriteBytes(b) == Sink(b)

Do(op) ==
  CASE op.o = "rune" -> WriteRune(op.r)
    [] op.o = "runes" -> WriteRunes(op.v)
    [] op.o = "bytes" -> WriteBytes(op.v)

\* --- properties of the design
NoErrorMeansAll == ("err" \in DOMAIN ret /\ left > 0) => sunk = due
NothingInvented == Len(sunk) <= Len(due)
AppendOnly == [][SubSeq(sunk', 1, Len(sunk)) = sunk]_wvars
CountIsExact == [][Len(sunk') - Len(sunk) = ret'.n]_wvars
====
