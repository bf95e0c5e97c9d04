---- MODULE LineBreakHistoryTrace ----
(* Checks the results recorded for a history of calls, from one or several processes: they are those of a function. *)
EXTENDS LineBreakHistory, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k
vars == <<hvars, l, k>>
Init == HInit({}) /\ l \in 1..Len(Trace) /\ k = 0
Next ==
  /\ k < Len(Trace[l].events) /\ Functional(memo)
  /\ k' = k + 1 /\ UNCHANGED <<l, work>>
  /\ LET e == Trace[l].events[k + 1] IN Learn(Trace[l].keys[e.key], e.res)
Spec == Init /\ [][Next]_vars
Conforms == Functional(memo) \/ (PrintT(<<"MISMATCH", l, k, Trace[l].keys[Trace[l].events[k].key], {m.res : m \in {x \in memo : x.key = Trace[l].keys[Trace[l].events[k].key]}}>>) /\ FALSE)
====
