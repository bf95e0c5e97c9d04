---- MODULE ImmutTrace ----
EXTENDS Immut, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, verdict
vars == <<ivars, l, k, verdict>>
Init == l \in 1..Len(Trace) /\ k = 0 /\ verdict = "ok" /\ IInit(Trace[l].buf)
Next ==
  /\ verdict = "ok" /\ k < Len(Trace[l].res)
  /\ k' = k + 1 /\ UNCHANGED l
  /\ LET r == Trace[l].res[k + 1] IN
     /\ Return(r.new)
     /\ verdict' = IF r.tokens /\ r.after = Buffer' /\ r.kept = Seen' THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok" \/ (PrintT(<<"MISMATCH", l, k, Trace[l].ops[k], "buffer", Buffer, Trace[l].res[k]>>) /\ FALSE)
====
