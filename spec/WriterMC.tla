---- MODULE WriterMC ----
EXTENDS Writer, Json
CONSTANTS Runes, MaxBudget, MaxRunes, MaxCalls
VARIABLES op, calls
vars == <<wvars, op, calls>>
Ops == [o : {"rune"}, r : Runes]
  \cup [o : {"runes"}, v : UNION {[1..n -> Runes] : n \in 0..MaxRunes}]
  \cup [o : {"bytes"}, v : {<<>>, <<0>>, <<255, 97>>}]
Init == op = [o |-> "none"] /\ calls = 0 /\ \E b \in 0..MaxBudget : WInit(b)
Next == calls < MaxCalls /\ calls' = calls + 1 /\ \E x \in Ops : op' = x /\ Do(x)
Spec == Init /\ [][Next]_vars
View == <<left, calls, sunk, due>>
Emit == PrintT("@@" \o ToJson([s |-> left, a |-> op', r |-> ret', t |-> left']))
====
