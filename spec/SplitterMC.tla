---- MODULE SplitterMC ----
(* All inputs up to MaxLen over ordinary runes and separators. *)
EXTENDS Splitter, Json
CONSTANTS Ord, Seps, MaxLen
Inputs == UNION {[1..n -> Ord \cup Seps] : n \in 0..MaxLen}
Init == \E in \in Inputs, k \in BOOLEAN : SInit(in, [j \in 1..Len(in) |-> in[j] \in Seps], k)
Spec == Init /\ [][SNext]_svars
Emit == Done' => PrintT("@@" \o ToJson([keep |-> keep, in |-> input, parts |-> out']))
====
