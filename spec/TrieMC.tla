---- MODULE TrieMC ----
EXTENDS Trie, Json, FiniteSets, SequencesExt
CONSTANTS Letters, MaxLen, Values
VARIABLE op
vars == <<tvars, op>>
AllKeys == UNION {[1..n -> Letters] : n \in 0..MaxLen}
Ops == [o : {"get", "del"}, k : AllKeys] \cup [o : {"put"}, k : AllKeys, v : Values]
Init == op = [o |-> "none"] /\ TInit
Next == \E x \in Ops : op' = x /\ Do(x)
Spec == Init /\ [][Next]_vars
View == map
St(m) == SetToSeq({<<k, m[k]>> : k \in DOMAIN m})
Emit == PrintT("@@" \o ToJson([s |-> St(map), a |-> op', r |-> ret', t |-> St(map')]))
====
