---- MODULE UcdTrace ----
(* A run of the generator: the two files it was served, and the tables it has written. When a file could not be fetched
   or the tables could not be written (fault), it must fail, or have done its work all the same; tables of a previous run
   are kept when it fails while fetching (kept). *)
EXTENDS Ucd, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, tables, verdict
vars == <<l, k, tables, verdict>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ k = 0 /\ tables = NoTables /\ verdict = "todo"
Line(i) == IF i <= Len(R.east) THEN [file |-> "east", text |-> R.east[i]] ELSE [file |-> "emoji", text |-> R.emoji[i - Len(R.east)]]
Reads == /\ verdict = "todo" /\ k < Len(R.east) + Len(R.emoji) /\ k' = k + 1
         /\ tables' = ReadLine(tables, Line(k + 1).file, Line(k + 1).text)
         /\ UNCHANGED <<l, verdict>>
Good == \A t \in Kinds : R.tables[t] = tables[t]
Judge == IF R.failed THEN R.fault # "none" /\ (R.fault = "fetch" => R.kept) ELSE Good
End == /\ verdict = "todo" /\ k = Len(R.east) + Len(R.emoji)
       /\ verdict' = (IF Judge THEN "done" ELSE "reject") /\ UNCHANGED <<l, k, tables>>
Next == Reads \/ End
Spec == Init /\ [][Next]_vars
Conforms == verdict # "reject" \/ (PrintT(<<"MISMATCH", "failed", R.failed, "fault", R.fault, "spec", [t \in {t \in Kinds : R.tables[t] # tables[t]} |-> [spec |-> SubSeq(tables[t], 1, IF Len(tables[t]) < 40 THEN Len(tables[t]) ELSE 40), code |-> R.tables[t]]]>>) /\ FALSE)
====
