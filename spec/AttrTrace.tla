---- MODULE AttrTrace ----
EXTENDS Attr, Json, IOUtils
CONSTANT Judged   \* the kinds of operations whose results are judged
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, verdict
vars == <<avars, l, k, verdict>>
Init == l \in 1..Len(Trace) /\ k = 0 /\ verdict = "ok" /\ AInit
Next ==
  /\ verdict = "ok" /\ k < Len(Trace[l].ops)
  /\ k' = k + 1 /\ UNCHANGED l
  /\ LET op == Trace[l].ops[k + 1] IN
     /\ Do(op)
     /\ verdict' = IF op.o \in Judged => Agree(op.o, ret', Trace[l].res[k + 1]) THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok" \/ (PrintT(<<"MISMATCH", l, k, Trace[l].ops[k], "spec", ret, "code", Trace[l].res[k]>>) /\ FALSE)
====
