---- MODULE LangTrace ----
(* Checks the dictionaries recorded for a language tag: by their identifiers, and by how they break words. *)
EXTENDS Lang, Hyph, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
Dicts == ndJsonDeserialize(IOEnv.VF_DICTS)
Words == ndJsonDeserialize(IOEnv.VF_WORDS)
Order == <<"us", "gb", "fr", "de", "es">>
Default == [minLen |-> 4, left |-> 2, right |-> 2]
Expected == [i \in 1..5 |-> [w \in 1..Len(Words) |-> PartsOf(Dicts[i], Words[w], Words[w], FALSE, Default)]]
\* the words tell the dictionaries apart
ASSUME \A i, j \in 1..5 : i # j => Expected[i] # Expected[j]
VARIABLES l, verdict
vars == <<l, verdict>>
Judge(r) ==
  /\ r.res.string = r.res.tag
  /\ r.res.stringWords = r.res.tagWords
  /\ \E i \in 1..5 : Order[i] \in Select(r.lang, r.region) /\ r.res.stringWords = Expected[i]
Init == l \in 1..Len(Trace) /\ verdict = "begin"
Next == verdict = "begin" /\ UNCHANGED l /\ verdict' = IF Judge(Trace[l]) THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
Conforms == verdict # "reject" \/ (PrintT(<<"MISMATCH", Trace[l], "spec", Select(Trace[l].lang, Trace[l].region)>>) /\ FALSE)
====
