---- MODULE HyphTrace ----
(* Checks the parts recorded for a word. *)
EXTENDS Hyph, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
Dicts == ndJsonDeserialize(IOEnv.VF_DICTS)
VARIABLES l, verdict
vars == <<l, verdict>>
CONSTANT Judged
Judge(r) ==
  CASE Judged = "legal" -> Legal(r.word, r.hyphen, r.c, r.parts)
    [] Judged = "patterns" -> IsException(Dicts[r.d], r.low) \/ r.parts = PartsOf(Dicts[r.d], r.word, r.low, r.hyphen, r.c)
    [] Judged = "exceptions" -> r.parts = PartsOf(Dicts[r.d], r.word, r.low, r.hyphen, r.c)
Init == l \in 1..Len(Trace) /\ verdict = "begin"
Next == verdict = "begin" /\ UNCHANGED l /\ verdict' = IF Judge(Trace[l]) THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
Conforms == verdict # "reject" \/ (PrintT(<<"MISMATCH", Trace[l], "spec",
  LET r == Trace[l] IN PartsOf(Dicts[r.d], r.word, r.low, r.hyphen, r.c)>>) /\ FALSE)
====
