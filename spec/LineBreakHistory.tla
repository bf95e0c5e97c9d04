---- MODULE LineBreakHistory ----
(* Histories of calls on line breakers (linebreak/). A line breaker keeps a working state from one call to the next; a call
   reads its tokens one by one, then fails or gives lines. Calls on several line breakers interleave.

   memo holds what is known of the results: the setting of a paragraph is a function of the options, the tokens and the
   width. It never says which one: see LineBreak for that. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES work, memo
hvars == <<work, memo>>

\* --- what a call may tell to an observer
Functional(m) == \A x, y \in m : x.key = y.key => x.res = y.res
Learn(key, res) == memo' = memo \cup {[key |-> key, res |-> res]}

\* --- how a call works: attr is the attribute in effect, shown the attribute of each token read
\* a paragraph is [toks, fits], where a token is "plain", "open" or "close"
Idle == [phase |-> "idle", in |-> <<>>, at |-> 0, attr |-> "none", shown |-> <<>>]
HInit(B) == work = [b \in B |-> Idle] /\ memo = {}
Fresh == [Idle EXCEPT !.phase = "reading"]
Begin(b, x, reset) ==
  /\ work[b].phase = "idle"
  /\ work' = [work EXCEPT ![b] = IF reset THEN [Fresh EXCEPT !.in = x] ELSE [@ EXCEPT !.phase = "reading", !.in = x, !.at = 0, !.shown = <<>>]]
  /\ UNCHANGED memo
Read(b) ==
  /\ work[b].phase = "reading" /\ work[b].at < Len(work[b].in.toks)
  /\ LET t == work[b].in.toks[work[b].at + 1]
         a == IF t = "open" THEN "on" ELSE work[b].attr
     IN work' = [work EXCEPT ![b].at = @ + 1, ![b].attr = IF t = "close" THEN "none" ELSE a, ![b].shown = Append(@, a)]
  /\ UNCHANGED memo
Finish(b) ==
  /\ work[b].phase = "reading" /\ work[b].at = Len(work[b].in.toks)
  /\ work' = [work EXCEPT ![b].phase = "idle"]
  /\ Learn(work[b].in, IF work[b].in.fits THEN work[b].shown ELSE <<"cannot">>)
====
