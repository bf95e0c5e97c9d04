---- MODULE OptionsTrace ----
(* A record: what is observed of instances made with some lists of options, in one process, in order.
   The results are a function of the configuration that the options resolve to: memo holds, for each configuration met,
   what was observed of it. Widths are known (Width). *)
EXTENDS Options, Width, Hyph
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, k, memo, verdict
vars == <<l, k, memo, verdict>>
Rec == Trace[l]
Num(v) == CHOOSE i \in -10..120 : ToString(i) = v
Memo(conf) == {i \in 1..Len(memo) : memo[i].conf = Meaning(Rec.kind, conf)}
\* widths: all is known
WidthsOK(conf, ev) == LET w == [ea |-> conf.ea = "true", skip |-> conf.skip = "true", amb |-> Num(conf.amb)] IN
  ev.obs = [i \in 1..Len(Rec.probes) |-> ToString(Sum(Rec.probes[i], w))]
\* hyphenation: the breaks retained are known from all those of the language, observed first
Finest(lang) == [lang |-> lang, len |-> "0", left |-> "1", right |-> "1"]
BreaksOK(conf, ev) == LET ref == Memo(Finest(conf.lang)) c == [minLen |-> Num(conf.len), left |-> Num(conf.left), right |-> Num(conf.right)] IN
  IF ref = {} THEN conf = Finest(conf.lang)
  ELSE LET cuts == memo[CHOOSE i \in ref : TRUE].cuts IN
       \A i \in 1..Len(Rec.probes) : LET n == Len(Rec.probes[i]) odd == {cuts[i][m] : m \in 1..Len(cuts[i])} IN
         ev.cuts[i] = IF Kept(FALSE, n, c) THEN <<>> ELSE Retain(odd, 1, 0, n, c)
Known(conf, ev) == CASE Rec.kind = "width" -> WidthsOK(conf, ev) [] Rec.kind = "hyph" -> BreaksOK(conf, ev) [] Rec.kind = "lb" -> TRUE
\* at the end: the options that have to differ
Distinguished == Rec.effects => \A d \in MustDiffer(Rec.kind) :
  \A i \in Memo(ConfOf(Rec.kind, <<d[1]>>)), j \in Memo(ConfOf(Rec.kind, <<d[2]>>)) : memo[i].obs # memo[j].obs
Met == Rec.effects => \A d \in MustDiffer(Rec.kind) : \A x \in {1, 2} : Memo(ConfOf(Rec.kind, <<d[x]>>)) # {}
Init == l \in 1..Len(Trace) /\ k = 0 /\ memo = <<>> /\ verdict = "ok"
Next ==
  /\ k < Len(Rec.events) /\ verdict = "ok"
  /\ k' = k + 1 /\ UNCHANGED l
  /\ LET ev == Rec.events[k + 1]
         conf == ConfOf(Rec.kind, ev.opts)
         seen == Memo(conf)
     IN IF seen = {}
        THEN /\ memo' = Append(memo, [conf |-> Meaning(Rec.kind, conf), obs |-> ev.obs, cuts |-> IF Rec.kind = "hyph" THEN ev.cuts ELSE <<>>])
             /\ verdict' = IF Known(conf, ev) THEN "ok" ELSE "reject"
        ELSE /\ UNCHANGED memo
             /\ verdict' = IF \A i \in seen : memo[i].obs = ev.obs THEN "ok" ELSE "reject"
Spec == Init /\ [][Next]_vars
AtEnd == k = Len(Rec.events)
Distinct == AtEnd => Distinguished \/ (PrintT(<<"MISMATCH", l, {d \in MustDiffer(Rec.kind) : \E i \in Memo(ConfOf(Rec.kind, <<d[1]>>)), j \in Memo(ConfOf(Rec.kind, <<d[2]>>)) : memo[i].obs = memo[j].obs}>>) /\ FALSE)
ASSUME \A kind \in Kinds : MustDiffer(kind) # {}
Complete == AtEnd /\ verdict = "ok" => Assert(Met, "options not observed")
Conforms == verdict = "ok" \/ (PrintT(<<"MISMATCH", l, k, Rec.events[k].opts, ConfOf(Rec.kind, Rec.events[k].opts), Rec.events[k].obs>>) /\ FALSE)
====
