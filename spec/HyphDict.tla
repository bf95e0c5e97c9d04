---- MODULE HyphDict ----
(* Audits the dictionaries used by HyphMC and HyphTrace: each one holds exactly the entries of its pattern file. *)
EXTENDS Hyph, TLC, Json, IOUtils
Dicts == ndJsonDeserialize(IOEnv.VF_DICTS)
Raws == ndJsonDeserialize(IOEnv.VF_RAWS)
RECURSIVE Total(_, _)
Total(b, n) == IF n = 0 THEN 0 ELSE Total(b, n - 1) + Len(b[n])
VARIABLES d, i
vars == <<d, i>>
D == Dicts[d]
R == Raws[d]
Init == d \in 1..Len(Dicts) /\ i \in 0..Len(Raws[d].pats)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Audit ==
  IF i = 0
  THEN /\ Total(D.pats, Hashes) = Len(R.pats) /\ Len(D.pats) = Hashes
       /\ D.exc = [j \in 1..Len(R.exc) |-> ExceptionOf(R.exc[j])]
  ELSE LET p == PatternOf(R.pats[i]) b == D.pats[Hash(0, p.l) + 1]
       IN Len(p.l) <= D.maxlen /\ Cardinality({m \in 1..Len(b) : b[m].l = p.l}) = 1 /\ \E m \in 1..Len(b) : b[m] = p
====
