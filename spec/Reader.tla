---- MODULE Reader ----
(* A reader over a slice of runes (terminal/runes/runesio.SliceReader): an exact cursor, which also gives out
   slices of its runes by rune offsets or byte offsets. One action per public method; ret is what the call returns. *)
EXTENDS Utf8, TLC

VARIABLES runes, pos, ret
rvars == <<runes, pos, ret>>

RInit(content) == runes = content /\ pos = 0 /\ ret = [none |-> TRUE]

ReadRune ==
  /\ IF pos < Len(runes)
     THEN /\ ret' = [r |-> runes[pos + 1], n |-> RuneLen(runes[pos + 1]), err |-> "none"]
          /\ pos' = pos + 1
     ELSE ret' = [r |-> 0, n |-> 0, err |-> "eof"] /\ UNCHANGED pos
  /\ UNCHANGED runes

\* offsets are given relatively to zero, or to the extreme values of a 64-bit integer: always out of range
Origin(wh) == CASE wh = 0 -> 0 [] wh = 1 -> pos [] wh = 2 -> Len(runes)
Seek(base, off, wh) ==
  /\ LET to == Origin(wh) + off IN
     IF base = "zero" /\ to >= 0 /\ to <= Len(runes)
     THEN pos' = to /\ ret' = [pos |-> to, err |-> "none"]
     ELSE UNCHANGED pos /\ ret' = [pos |-> 0, err |-> "range"]
  /\ UNCHANGED runes

Rest == ret' = [v |-> SubSeq(runes, pos + 1, Len(runes))] /\ UNCHANGED <<runes, pos>>

SliceOf(a, b) == SubSeq(runes, a + 1, b)
Slice(a, b) == ret' = [v |-> SliceOf(a, b)] /\ UNCHANGED <<runes, pos>>

Pairs(L) == [i \in 1..(Len(L) \div 2) |-> <<L[2 * i - 1], L[2 * i]>>]
Slices(L) ==
  /\ ret' = IF Len(L) % 2 # 0 THEN [panic |-> TRUE]
            ELSE [v |-> [i \in 1..(Len(L) \div 2) |-> SliceOf(Pairs(L)[i][1], Pairs(L)[i][2])]]
  /\ UNCHANGED <<runes, pos>>

\* the number of runes encoded by the first bytes
RuneAt(offsets, b) == (CHOOSE i \in 1..Len(offsets) : offsets[i] = b) - 1
ByteSlices(L) ==
  /\ ret' = IF Len(L) % 2 # 0 THEN [panic |-> TRUE]
            ELSE LET offsets == ByteOffsets(runes) IN
                 [v |-> [i \in 1..(Len(L) \div 2) |->
                      SliceOf(RuneAt(offsets, Pairs(L)[i][1]), RuneAt(offsets, Pairs(L)[i][2]))]]
  /\ UNCHANGED <<runes, pos>>

Do(op) ==
  CASE op.o = "read" -> ReadRune
    [] op.o = "seek" -> Seek(op.base, op.off, op.wh)
    [] op.o = "rest" -> Rest
    [] op.o = "slice" -> Slice(op.a, op.b)
    [] op.o = "slices" -> Slices(op.l)
    [] op.o = "bytes" -> ByteSlices(op.l)

\* --- properties of the design
CursorInRange == pos \in 0..Len(runes)
ErrorsDoNotMove == [][("err" \in DOMAIN ret' /\ ret'.err # "none") => pos' = pos]_rvars
ContentIsConstant == [][runes' = runes]_rvars
OnlyReadAndSeekMove == [][("v" \in DOMAIN ret') => pos' = pos]_rvars
====
