---- MODULE LineBreakMC ----
(* All the ways to set small paragraphs. Tokens are taken in Shapes, where a rune is written as in ASCII. *)
EXTENDS LineBreak, TLC, Json
CONSTANTS Shapes, MaxTokens, Widths, Tolerances, Hyphens2, Renders, WordBreaks, Scales, Wraps
VARIABLES par, at, class, cost, tokens, width
vars == <<par, at, class, cost, tokens, width>>
\* shapes of tokens; h is cut every 2 runes
Shape(n) == CASE n = 1 -> <<97>> [] n = 2 -> <<98, 98, 98>> [] n = 3 -> <<99, 46>> [] n = 4 -> <<104, 104, 104, 104, 104>>
              [] n = 5 -> <<100, 100, 45, 101, 101, 101>> [] n = 6 -> <<40, 102, 41>> [] n = 7 -> <<103, 103, 103, 103, 46, 104, 104, 104, 104, 104>>
              [] n = 8 -> <<45>> [] n = 9 -> <<105, 45, 105>> [] n = 10 -> <<46, 46>>
              [] n = 11 -> <<27, 91, 51, 49, 109, 97, 27, 91, 48, 109>> [] n = 12 -> <<27, 91, 49, 109, 104, 104, 104, 104, 104, 104, 46, 98, 27, 91, 109>>
              \* runes of width 0 (106) and 2 (107), and a short word that the hyphenator would cut
              [] n = 13 -> <<106, 46, 98, 98>> [] n = 14 -> <<107, 107, 104, 104>> [] n = 15 -> <<106>> [] n = 16 -> <<104, 104, 107, 106, 104, 104>>
              \* nested attributes
              [] n = 17 -> <<27, 91, 49, 109, 104, 104, 27, 91, 115, 104, 104, 104, 104, 104, 104, 27, 91, 117, 98, 27, 91, 109>>
              [] n = 19 -> <<27, 91, 55, 109, 97, 124, 98, 45, 98, 98, 98, 27, 91, 109>>
              [] n = 18 -> <<27, 91, 49, 109, 27, 91, 52, 109, 97, 27, 91, 48, 109, 46, 27, 91, 109, 98>>
              \* a token without text; and one which ends with a mark and a sequence
              [] n = 20 -> <<27, 91, 49, 109, 27, 91, 109>> [] n = 21 -> <<27, 91, 52, 109, 97, 46, 27, 91, 109>>
Facts == [runes |-> [i \in 1..127 |-> [r |-> i, m |-> IF i = 106 THEN 0 ELSE IF i = 107 THEN 2 ELSE 1, punct |-> i \in {40, 41, 45, 46}, hyphen |-> i = 45]], parts |-> <<>>]
Configs == [tol10 : Tolerances, wb : WordBreaks, hpen : Hyphens2, flag : {100}, render : Renders, scale : Scales, q : {1}, punct : {"default"}, hyph : {"every"}, every : {2}]
Init ==
  /\ \E n \in 1..MaxTokens : \E s \in [1..n -> Shapes] : \E wrap \in Wraps :
       tokens = [i \in 1..n |-> (IF wrap /\ i = 1 THEN <<27, 91, 51, 104>> ELSE <<>>) \o Shape(s[i]) \o (IF wrap /\ i = n THEN <<27, 91, 51, 108>> ELSE <<>>)]
  /\ width \in Widths
  /\ \E c \in Configs : par = Paragraph(Facts, IF c.hpen = 300 THEN c ELSE [c EXCEPT !.flag = c.hpen], tokens, width)
  /\ at = 0 /\ class = 1 /\ cost = Zero
SetLine == \E j \in (at + 1)..Count(par) :
  /\ Legal(par, j) /\ Feasible(par, at, j)
  /\ at' = j /\ class' = Class(par, at, j)
  /\ cost' = Add(cost, Add(LineCost(par, at, j), Fitness(class, class')))
  /\ UNCHANGED <<par, tokens, width>>
Next == SetLine
Spec == Init /\ [][Next]_vars
Complete == at = Count(par)
\* the transitions and the computations over all of them agree
ReachSound == at \in Reach(par, 1, {0})
OptimalSound == Complete => Optimal(par) # None /\ Leq(Optimal(par), cost)
Whole == LineText(par, 0, Count(par)) = par.text
Emit2 == at = 0 => PrintT("@@" \o ToJson([tokens |-> tokens, w |-> width, c |-> par.c]))
====
