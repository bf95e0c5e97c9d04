---- MODULE CacheMC ----
EXTENDS Cache
Spec == CInit /\ [][CNext]_cvars
\* the cache refines what a user may see
S == INSTANCE Shared WITH tab <- {[file |-> x, dict |-> table[x]] : x \in {y \in Langs : table[y] # None}}
Refines == S!SInit /\ [][\E x \in Langs : \E d \in 1..Len(dicts') : S!Get(x, d)]_table
====
