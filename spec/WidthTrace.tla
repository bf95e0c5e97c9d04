---- MODULE WidthTrace ----
EXTENDS Width
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, verdict
vars == <<l, verdict>>
EdgeSet == Edges \* evaluated once
Points(rec) == {rec.from} \cup {e \in EdgeSet : e > rec.from /\ e <= rec.to}

\* run: all the runes from..to have been measured with the same width w
RunOK(rec) == LET c == Resolve(rec.cfg) IN
  \A r \in Points(rec) :
    rec.w = CASE rec.what = "ambiguous" -> (IF r >= 0 /\ r <= 1114111 /\ In(r, Ambiguous) THEN 1 ELSE 0)
              [] rec.what \in {"width", "widths"} -> WidthOf(r, c)
              [] rec.what = "twice" -> 2 * WidthOf(r, c)
              [] rec.what \in {"around", "strings"} -> Sum(rec.pre, c) + WidthOf(r, c) + Sum(rec.post, c)
\* session: calls in one process, in order
SessionOK(rec) == \A i \in 1..Len(rec.ops) :
  rec.res[i] = [w |-> WidthOf(rec.ops[i].r, Resolve(rec.ops[i].cfg)), amb |-> In(rec.ops[i].r, Ambiguous)]
TextOK(rec) == rec.obs = [w |-> Sum(rec.in, Resolve(rec.cfg))]

OK(rec) == CASE rec.kind = "run" -> RunOK(rec)
             [] rec.kind = "session" -> SessionOK(rec)
             [] rec.kind = "text" -> TextOK(rec)
Init == l \in 1..Len(Trace) /\ verdict = "todo"
Next == verdict = "todo" /\ UNCHANGED l /\ verdict' = IF OK(Trace[l]) THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
Conforms == verdict # "reject" \/ (PrintT(<<"MISMATCH", Trace[l]>>) /\ FALSE)
====
