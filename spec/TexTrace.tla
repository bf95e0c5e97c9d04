---- MODULE TexTrace ----
(* what = "failing": the generator may have ended with an error; otherwise the file must be as good as any.
   what = "file": the words hyphenated with the file generated from this source must be broken as TeX reads the source.
   what = "bundled": a source and the embedded file, read side by side: they hold the same entries, in the same order. *)
EXTENDS Tex, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, d, j, lib, verdict
vars == <<l, k, d, j, lib, verdict>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ k = 0 /\ d = TexOpened(Trace[l].name) /\ j = 0 /\ lib = Opened(Trace[l].name) /\ verdict = "ok"
Config == [minLen |-> 0, left |-> 1, right |-> 1]
Empty(x) == [x EXCEPT !.pats = <<>>, !.exc = <<>>]
\* entries not matched yet wait in d (from the source) and lib (from the file)
Match(x, y) == LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y) IN SubSeq(x, 1, n) = SubSeq(y, 1, n)
Rest(x, y) == SubSeq(x, Len(y) + 1, Len(x))
Settle(x, y) == /\ d' = [x EXCEPT !.pats = Rest(@, y.pats), !.exc = Rest(@, y.exc)]
                /\ lib' = [y EXCEPT !.pats = Rest(@, x.pats), !.exc = Rest(@, x.exc)]
                /\ verdict' = IF Match(x.pats, y.pats) /\ Match(x.exc, y.exc) THEN "ok" ELSE "reject"
Waiting(x) == x.pats # <<>> \/ x.exc # <<>>
Source == /\ verdict = "ok" /\ k < Len(R.lines)
          /\ R.what = "bundled" => ~Waiting(d)   \* read the source until it has entries, then the file until it has them too
          /\ k' = k + 1 /\ UNCHANGED <<l, j>>
          /\ LET x == ReadTex(d, R.lines[k + 1]) IN IF R.what = "bundled" THEN Settle(x, lib) ELSE d' = x /\ UNCHANGED <<lib, verdict>>
File == /\ verdict = "ok" /\ R.what = "bundled" /\ (Waiting(d) \/ k = Len(R.lines)) /\ j < Len(R.file)
        /\ j' = j + 1 /\ UNCHANGED <<l, k>> /\ Settle(d, ReadLine(lib, R.file[j + 1]))
Judge == IF R.what = "bundled" THEN ~Waiting(d) /\ ~Waiting(lib) /\ d.id = lib.id
         ELSE IF R.what = "failing" /\ R.failed THEN TRUE
         ELSE ~R.err /\ R.id = d.id /\ \A i \in 1..Len(R.words) : R.parts[i] = Split(d, R.words[i], Config)
End == /\ verdict = "ok" /\ k = Len(R.lines) /\ (R.what = "bundled" => j = Len(R.file))
       /\ verdict' = (IF Judge THEN "done" ELSE "reject") /\ UNCHANGED <<l, k, d, j, lib>>
Next == Source \/ File \/ End
Spec == Init /\ [][Next]_vars
Conforms == verdict # "reject" \/ (PrintT(<<"MISMATCH", R.what, R.name, "line", k, "of the source; line", j, "of the file", "spec", d.id, IF R.what # "bundled" THEN [i \in 1..Len(R.words) |-> Split(d, R.words[i], Config)] ELSE <<>> >>) /\ FALSE)
====
