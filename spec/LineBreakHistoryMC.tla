---- MODULE LineBreakHistoryMC ----
(* All the histories of a few calls, interleaved on some line breakers; 0 stands for a line breaker made for the call. *)
EXTENDS LineBreakHistory, TLC, Json
CONSTANTS Breakers, Paragraphs, MaxCalls, Reset
VARIABLE calls
vars == <<hvars, calls>>
Par(n) == CASE n = 1 -> [toks |-> <<"plain", "plain">>, fits |-> TRUE]
            [] n = 2 -> [toks |-> <<"plain", "open", "plain">>, fits |-> TRUE]
            [] n = 3 -> [toks |-> <<"open", "plain", "close">>, fits |-> TRUE]
            [] n = 4 -> [toks |-> <<"open", "plain">>, fits |-> FALSE]
            [] n = 5 -> [toks |-> <<"plain", "close">>, fits |-> TRUE]
            [] n = 6 -> [toks |-> <<"plain">>, fits |-> FALSE]
Init == HInit(Breakers) /\ calls = <<>>
Next == \E b \in Breakers :
  \/ /\ Len(calls) < MaxCalls
     /\ \E n \in Paragraphs : Begin(b, Par(n), Reset \/ b = 0) /\ calls' = Append(calls, [b |-> b, x |-> n])
  \/ (Read(b) \/ Finish(b)) /\ UNCHANGED calls
Spec == Init /\ [][Next]_vars
DependsOnlyOnInput == Functional(memo)
Quiet == \A b \in Breakers : work[b].phase = "idle"
Emit == (Quiet /\ Len(calls) = MaxCalls) => PrintT("@@" \o ToJson(calls))
====
