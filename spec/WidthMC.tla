---- MODULE WidthMC ----
(* Design of the width computation: a table of default widths built on first use, whatever the options of this use;
   calls with the East Asian option bypass the table. *)
EXTENDS Width
CONSTANTS Runes, Calls
VARIABLES built, calls, op, ret
vars == <<built, calls, op, ret>>
Cfgs == [ea : BOOLEAN, skip : BOOLEAN, amb : {1, 2, 5}]
Table == [r \in Runes |-> WidthOf(r, Default)]

Init == built = FALSE /\ calls = 0 /\ op = [none |-> TRUE] /\ ret = 0
Lookup(r, c) == ~c.ea /\ built' = TRUE /\ ret' = Table[r]
Compute(r, c) == c.ea /\ UNCHANGED built /\ ret' = WidthOf(r, c)
Next == calls < Calls /\ calls' = calls + 1 /\ \E r \in Runes, c \in Cfgs : op' = [r |-> r, cfg |-> c] /\ (Lookup(r, c) \/ Compute(r, c))
Spec == Init /\ [][Next]_vars
View == <<built, calls>>
HistoryFree == [][ret' = WidthOf(op'.r, op'.cfg)]_vars
DefaultAmongFour == \A r \in Runes : Table[r] \in 0..4
Emit == PrintT("@@" \o ToJson([s |-> built, a |-> op', t |-> built', r |-> [w |-> ret', amb |-> In(op'.r, Ambiguous)]]))
====
