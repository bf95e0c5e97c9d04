---- MODULE LineBreakTrace ----
(* Checks the lines recorded for a paragraph: they are a behaviour of LineBreak. front holds the ways to read the lines so far. *)
EXTENDS LineBreak, TLC, Json, IOUtils
CONSTANT Judged
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, par, front, verdict
vars == <<l, k, par, front, verdict>>
R == Trace[l]
Set == R.err = "none"

\* R.w is in hundredths
WidthOk == \A i \in 1..Len(R.lines) : 100 * MeasureAll(R.f, [R.c EXCEPT !.scale = R.c.q], Visible(R.lines[i])) <= R.w * R.c.q
\* ways to read a line: breaks at which it may end
Ends(p, i, line) == {j \in (i + 1)..Count(p) : Legal(p, j) /\ p.at[j].to - p.at[i + 1].from \in (Len(line) - 1)..Len(line) /\ LineText(p, i, j) = line}
Start == IF Judged = "attributes" THEN {0} ELSE {[at |-> 0, class |-> 1, cost |-> Zero, ok |-> TRUE]}
Begin ==
  /\ k = 0 /\ verdict = "reading" /\ UNCHANGED l
  /\ k' = 1
  /\ par' = (IF Judged = "attributes" THEN Shown(R.tokens, <<>>, {}) ELSE IF Judged = "width" THEN <<>> ELSE Paragraph(R.f, R.c, R.tokens, R.w))
  /\ front' = Start
  /\ verdict' = IF Judged = "width" THEN (IF WidthOk THEN "ok" ELSE "reject") ELSE "reading"
Line ==
  /\ k > 0 /\ k <= Len(R.lines) /\ verdict = "reading" /\ UNCHANGED <<l, par>>
  /\ k' = k + 1
  /\ LET line == Visible(R.lines[k]) IN
     IF Judged = "attributes"
     THEN LET e == Emulate(par, R.lines[k], A!Items(R.lines[k]), <<>>, front)
          IN front' = e.at /\ verdict' = IF e.state = <<>> /\ e.at # {} THEN "reading" ELSE "reject"
     ELSE /\ front' = UNION {{[at |-> j, ok |-> x.ok /\ (Judged = "text" \/ Feasible(par, x.at, j)),
                               class |-> IF Judged = "optimal" THEN Class(par, x.at, j) ELSE 1,
                               cost |-> IF Judged = "optimal" THEN Add(x.cost, Add(LineCost(par, x.at, j), Fitness(x.class, Class(par, x.at, j)))) ELSE Zero]
                              : j \in Ends(par, x.at, line)} : x \in front}
          /\ verdict' = IF front' # {} THEN "reading" ELSE IF Judged = "text" THEN "reject" ELSE "unreadable"
\* floating point numbers: a thousandth of a unit, or a relative difference of 1E-12
Slack(n) == Add(Add(n, FromInt(46)), SubSeq(n, 4, Len(n)))
Final == {x \in front : x.at = Count(par)}
JudgeEnd ==
  CASE Judged = "attributes" -> ~Set \/ Len(par.runes) \in front
    [] Judged = "text" -> ~Set \/ Final # {}
    [] Judged = "feasible" -> IF Set THEN Final = {} \/ \E x \in Final : x.ok ELSE R.err = "cannot" /\ R.lines = <<>> /\ ~Settable(par)
    [] Judged = "optimal" -> ~Set \/ Final = {} \/ ~(\E x \in Final : x.ok) \/ \E x \in Final : Leq(x.cost, Slack(Optimal(par)))
End ==
  /\ k = Len(R.lines) + 1 /\ k > 0 /\ verdict = "reading" /\ UNCHANGED <<l, par, front>>
  /\ k' = k + 1
  /\ verdict' = IF JudgeEnd THEN "ok" ELSE "reject"
Init == l \in 1..Len(Trace) /\ k = 0 /\ par = <<>> /\ front = {} /\ verdict = "reading"
Next == Begin \/ Line \/ End
Spec == Init /\ [][Next]_vars
Conforms == verdict # "reject" \/ (PrintT(<<"MISMATCH", R.tokens, R.w, R.c, "code", R.lines, R.err, "line", k - 1>>) /\ FALSE)
====
