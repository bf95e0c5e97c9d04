---- MODULE TotalTrace ----
(* Reads recorded sessions against Total. *)
EXTENDS Total, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, s, verdict
vars == <<l, k, s, verdict>>
Init == l \in 1..Len(Trace) /\ k = 0 /\ s = TInit /\ verdict = "ok"
Op == Trace[l].ops[k + 1]
Next ==
  /\ verdict = "ok" /\ k < Len(Trace[l].ops)
  /\ k' = k + 1 /\ UNCHANGED l
  /\ verdict' = IF Trace[l].ended[k + 1] \in Ends(Op, s) THEN "ok" ELSE "reject"
  /\ s' = After(Op, s, Trace[l].ended[k + 1])
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok" \/ (PrintT(<<"MISMATCH", l, k, Trace[l].ops[k], "code", Trace[l].ended[k]>>) /\ FALSE)
====
