---- MODULE TrieTrace ----
EXTENDS Trie, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, verdict
vars == <<tvars, l, k, verdict>>
Init == l \in 1..Len(Trace) /\ k = 0 /\ verdict = "ok" /\ TInit
Next ==
  /\ verdict = "ok" /\ k < Len(Trace[l].ops)
  /\ k' = k + 1 /\ UNCHANGED l
  /\ Do(Trace[l].ops[k + 1])
  /\ verdict' = IF Trace[l].res[k + 1] = ret' THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok" \/ (PrintT(<<"MISMATCH", l, k, Trace[l].ops[k], "spec", ret, "code", Trace[l].res[k]>>) /\ FALSE)
====
