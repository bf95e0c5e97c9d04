---- MODULE ClassesTrace ----
(* All runes: each record is a run of consecutive runes that have the same classes in the environment (space, punct,
   hyphen) and for which the code gives the same answers. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
CONSTANT What
VARIABLES l, verdict
vars == <<l, verdict>>
Bar == 124
Answer(run) ==
  CASE What = "token" -> run.token = run.space
    [] What = "punct" ->
         LET mark(r) == r = Bar \/ (run.punct /\ ~run.hyphen) IN
         \A r \in {run.from, run.to} \cup ({Bar} \cap (run.from..run.to)) : run.isPunct = mark(r) /\ run.puncts = mark(r)
    [] What = "hyphen" -> run.isHyphen = run.hyphen /\ run.splits = run.hyphen
Init == l \in 1..Len(Trace) /\ verdict = "todo"
Next == verdict = "todo" /\ UNCHANGED l /\ verdict' = IF Answer(Trace[l]) THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
Conforms == verdict # "reject" \/ (PrintT(<<"MISMATCH", Trace[l]>>) /\ FALSE)
====
