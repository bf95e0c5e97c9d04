---- MODULE AnsiTrace ----
(* Checks the pieces recorded for a text. pieces[i].rem is the remainder that the code returned with each piece. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, verdict
vars == <<l, verdict>>
A == INSTANCE Ansi WITH in <- <<>>, at <- 1, phase <- "done", cur <- <<>>, pieces <- <<>>
Remainders(s, ps) == \A i \in 1..Len(ps) : ps[i].rem = A!Join(SubSeq(ps, i + 1, Len(ps)))
Result(rec) ==
  [lossless |-> A!LosslessPieces(rec.in, rec.pieces) /\ A!ProgressPieces(rec.in, rec.pieces) /\ Remainders(rec.in, rec.pieces),
   classified |-> A!LosslessPieces(rec.in, rec.pieces) /\ A!ClassifiedPieces(rec.in, rec.pieces)]
Init == l \in 1..Len(Trace) /\ verdict = [lossless |-> TRUE, classified |-> TRUE, done |-> FALSE]
Next == ~verdict.done /\ UNCHANGED l
        /\ LET r == Result(Trace[l]) IN verdict' = [lossless |-> r.lossless, classified |-> r.classified, done |-> TRUE]
Spec == Init /\ [][Next]_vars
Lossless == verdict.lossless \/ (PrintT(<<"MISMATCH", Trace[l]>>) /\ FALSE)
Classified == verdict.classified \/ (PrintT(<<"MISMATCH", Trace[l], A!Items(Trace[l].in)>>) /\ FALSE)
====
