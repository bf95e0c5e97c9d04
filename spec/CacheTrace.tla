---- MODULE CacheTrace ----
(* Checks the events recorded from goroutines: the starts and ends of their calls, in order.
   Each hyphenator gets the dictionary of its language (see Shared), for good; two languages have distinct ones.
   Each output is the one of the same call done alone, from the events of a sequential run that come first. *)
EXTENDS Shared, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, alone, pending, verdict
vars == <<l, k, tab, alone, pending, verdict>>
File(lang) == CASE lang \in {"en", "en-US", "", "it"} -> "us" [] lang \in {"en-GB", "en-AU"} -> "gb" [] lang \in {"fr", "fr-CA"} -> "fr"
                [] lang \in {"de", "de-AT"} -> "de" [] lang \in {"es", "es-MX"} -> "es"
E == Trace[l].events[k + 1]
Init == l \in 1..Len(Trace) /\ k = 0 /\ SInit /\ alone = {} /\ pending = {} /\ verdict = "ok"
Next ==
  /\ k < Len(Trace[l].events) /\ verdict = "ok"
  /\ k' = k + 1 /\ UNCHANGED l
  /\ CASE E.kind = "alone" ->
            /\ alone' = alone \cup {[task |-> E.task, out |-> E.out]} /\ UNCHANGED <<tab, pending>>
            /\ verdict' = IF \E x \in alone : x.task = E.task /\ x.out # E.out THEN "reject" ELSE "ok"
       [] E.kind = "begin" ->
            /\ pending' = pending \cup {[p |-> E.p, task |-> E.task]} /\ UNCHANGED <<tab, alone>>
            /\ verdict' = IF \E x \in pending : x.p = E.p THEN "reject" ELSE "ok"
       [] E.kind = "end" ->
            LET done == {x \in pending : x.p = E.p}
                task == (CHOOSE x \in done : TRUE).task
                lang == Trace[l].tasks[task].lang
                made == Trace[l].tasks[task].hyph
            IN /\ pending' = pending \ done /\ UNCHANGED alone
               /\ IF made /\ MayGet(File(lang), E.dict) THEN Get(File(lang), E.dict) ELSE UNCHANGED tab
               /\ verdict' = IF /\ Cardinality(done) = 1
                                /\ [task |-> task, out |-> E.out] \in alone
                                /\ made => E.dict > 0 /\ MayGet(File(lang), E.dict)
                             THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok" \/ (PrintT(<<"MISMATCH", l, k, Trace[l].events[k], tab>>) /\ FALSE)
====
