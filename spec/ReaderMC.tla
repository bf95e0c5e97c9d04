---- MODULE ReaderMC ----
(* All contents up to MaxLen runes, all positions, all calls: each transition is printed, to be replayed. *)
EXTENDS Reader, Json
CONSTANTS Alphabet, MaxLen, MaxOff, Kind
VARIABLE op
vars == <<rvars, op>>

Contents == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Cursor == {[o |-> "read"], [o |-> "rest"]}
  \cup [o : {"seek"}, base : {"zero"}, off : -MaxOff..MaxOff, wh : 0..2]
  \cup [o : {"seek"}, base : {"max"}, off : {0, -1}, wh : 0..2]
  \cup [o : {"seek"}, base : {"min"}, off : {0, 1}, wh : 0..2]
Range == 0..Len(runes)
RangePairs == {<<a, b>> \in Range \X Range : a <= b}
BytePairs == LET o == ByteOffsets(runes) IN {<<o[p[1] + 1], o[p[2] + 1]>> : p \in RangePairs}
Slicing == {[o |-> "slice", a |-> p[1], b |-> p[2]] : p \in RangePairs}
  \cup {[o |-> "slices", l |-> p] : p \in RangePairs} \cup {[o |-> "bytes", l |-> p] : p \in BytePairs}
  \cup {[o |-> "slices", l |-> p \o q] : p \in RangePairs, q \in RangePairs}
  \cup {[o |-> "bytes", l |-> p \o q] : p \in BytePairs, q \in BytePairs}
  \cup {[o |-> "bytes", l |-> <<>>], [o |-> "slices", l |-> <<>>], [o |-> "slices", l |-> <<0>>], [o |-> "bytes", l |-> <<0, 0, 0>>]}
Moves == {[o |-> "read"], [o |-> "seek", base |-> "zero", off |-> 0, wh |-> 0]}
Ops == IF Kind = "cursor" THEN Cursor ELSE Moves \cup Slicing

Init == op = [o |-> "none"] /\ \E c \in Contents : RInit(c)
Next == \E x \in Ops : op' = x /\ Do(x)
Spec == Init /\ [][Next]_vars
St(r, p) == [runes |-> r, pos |-> p]
View == <<runes, pos>>
Emit == PrintT("@@" \o ToJson([s |-> St(runes, pos), a |-> op', r |-> ret', t |-> St(runes', pos')]))
====
