---- MODULE Trie ----
(* A trie as a map from keys (sequences) to non-nil values (wordbreak/hyphenator/internal/trie).
   The nodes of the trie are the prefixes of its keys: Delete removes the nodes that are no longer useful. *)
EXTENDS Integers, Sequences, TLC

VARIABLES map, ret
tvars == <<map, ret>>

Keys == DOMAIN map
IsPrefixOf(k, key) == Len(k) <= Len(key) /\ SubSeq(key, 1, Len(k)) = k
Node(k) == k = <<>> \/ \E key \in Keys : IsPrefixOf(k, key)

TInit == map = <<>> /\ ret = [none |-> TRUE]
Get(k) == ret' = [v |-> IF k \in Keys THEN map[k] ELSE 0] /\ UNCHANGED map
Put(k, v) ==
  /\ map' = [x \in Keys \cup {k} |-> IF x = k THEN v ELSE map[x]]
  /\ ret' = [b |-> k \notin Keys]
Delete(k) ==
  /\ map' = [x \in Keys \ {k} |-> map[x]]
  /\ ret' = [b |-> Node(k)]

Do(op) ==
  CASE op.o = "get" -> Get(op.k)
    [] op.o = "put" -> Put(op.k, op.v)
    [] op.o = "del" -> Delete(op.k)

\* --- properties of the design: a refinement of a map
DeleteOnlyForgetsKey == [][\A x \in Keys : x \notin DOMAIN map' => ret' = [b |-> TRUE]]_tvars
KeysAreNodes == \A k \in Keys : \A n \in 0..Len(k) : Node(SubSeq(k, 1, n))
====
