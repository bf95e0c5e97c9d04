---- MODULE LoadTrace ----
(* Reads the lines of a file, then judges what was recorded about the dictionary loaded from it, or about the list of files. *)
EXTENDS Load, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, d, verdict
vars == <<l, k, d, verdict>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ k = 0 /\ d = Opened(Trace[l].name) /\ verdict = "ok"
Config == [minLen |-> 0, left |-> 1, right |-> 1]
Judge ==
  CASE R.what = "list" -> Listing({R.lines[i] : i \in 1..Len(R.lines)}, R.listed)
    [] R.what = "missing" -> R.err /\ R.nil
    [] R.what = "file" -> \/ R.long /\ R.err /\ R.nil      \* a line is too long to be read
                          \/ ~R.err /\ ~R.nil /\ R.id = d.id /\ \A i \in 1..Len(R.words) : R.parts[i] = Split(d, R.words[i], Config)
Next == \/ k < Len(R.lines) /\ R.what = "file" /\ k' = k + 1 /\ d' = ReadLine(d, R.lines[k + 1]) /\ UNCHANGED <<l, verdict>>
        \/ (R.what # "file" \/ k = Len(R.lines)) /\ verdict = "ok" /\ verdict' = (IF Judge THEN "done" ELSE "reject") /\ UNCHANGED <<l, k, d>>
Spec == Init /\ [][Next]_vars
Conforms == verdict # "reject" \/ (PrintT(<<"MISMATCH", R.what, R.name, "spec", d.id, IF R.what = "file" THEN [i \in 1..Len(R.words) |-> Split(d, R.words[i], Config)] ELSE <<>> >>) /\ FALSE)
====
