---- MODULE AttrMC ----
EXTENDS Attr, Json
CONSTANTS MaxItems, MaxIters
VARIABLE op
vars == <<avars, op>>
N == Len(items) + 1
Kinds == {[nil |-> FALSE, start |-> IF s THEN <<100 + N>> ELSE <<>>, text |-> <<200 + N>>, stop |-> IF e THEN <<300 + N>> ELSE <<>>] : s, e \in BOOLEAN}
         \cup {[nil |-> TRUE, start |-> <<>>, text |-> <<>>, stop |-> <<>>]}
Ops ==
  (IF iters = <<>> /\ Len(items) < MaxItems THEN {[o |-> "push", a |-> a] : a \in Kinds} ELSE {})
  \cup (IF iters = <<>> /\ items # <<>> THEN {[o |-> "setstop", i |-> Len(items) - 1, v |-> v] : v \in {<<>>, <<400>>}} ELSE {})
  \cup (IF Len(iters) < MaxIters THEN {[o |-> "iter"], [o |-> "first"]} ELSE {})
  \cup UNION {{[o |-> x, i |-> i - 1] : x \in {"next", "sol", "eol"}} : i \in 1..Len(iters)}
  \cup {[o |-> "item", i |-> i - 1] : i \in {j \in 1..Len(iters) : iters[j] > 0}}
Init == op = [o |-> "none"] /\ AInit
Next == \E x \in Ops : op' = x /\ Do(x)
Spec == Init /\ [][Next]_vars
View == <<items, iters, levels>>
St == [items |-> items, iters |-> iters, levels |-> levels]
Emit == PrintT("@@" \o ToJson([s |-> St, a |-> op', t |-> St']))
====
