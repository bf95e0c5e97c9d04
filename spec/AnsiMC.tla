---- MODULE AnsiMC ----
(* All texts up to MaxLen runes over Alphabet (after Prefix). *)
EXTENDS Ansi, Json
CONSTANTS Alphabet, MaxLen, CSI
\* an element of the alphabet is a rune, or one of these sequences
Atom(x) ==
  IF x < 2000000 THEN <<x>>
  ELSE CASE x = 2000001 -> <<ESC, Bracket, 49, 109>> [] x = 2000002 -> <<ESC, Bracket, 109>> [] x = 2000003 -> <<ESC, Bracket, 115>>
         [] x = 2000004 -> <<ESC, Bracket, 117>> [] x = 2000005 -> <<ESC, Bracket, 50, 75>> [] x = 2000006 -> <<ESC, Bracket, 51, 56, 59, 53, 59, 49, 109>>
         [] x = 2000007 -> <<ESC, Bracket, 49, 50, 51>> [] x = 2000008 -> <<ESC, Bracket, 104>> [] x = 2000009 -> <<ESC, Bracket, 48, 48, 59, 49, 109>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Atom(Head(s)) \o Flat(Tail(s))
Prefix == IF CSI THEN <<ESC, Bracket>> ELSE <<>>
Init == \E n \in 0..MaxLen : \E s \in [1..n -> Alphabet] : AInit(Prefix \o Flat(s))
Spec == Init /\ [][ANext]_avars /\ WF_avars(ANext)
Terminates == <>(phase = "done")
Emit == phase' = "done" => PrintT("@@" \o ToJson(in))
====
