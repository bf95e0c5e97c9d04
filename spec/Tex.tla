---- MODULE Tex ----
(* Reading the TeX source of a pattern file (languages/tex), as TeX does: a comment goes from % to the end of its line; the
   groups \patterns{..} and \hyphenation{..} hold entries separated by blanks or ends of lines. Sources are laid out like the
   bundled ones: a group opens and closes on lines of its own, but that the last exception may be followed by }; one exception
   on each line. *)
EXTENDS Load
PatternsGroup == <<92, 112, 97, 116, 116, 101, 114, 110, 115, 123>>     \* \patterns{
Brace == 125
RECURSIVE Uncommented(_)
Uncommented(line) == IF line = <<>> \/ Head(line) = 37 THEN <<>> ELSE <<Head(line)>> \o Uncommented(Tail(line))
RECURSIVE Trimmed(_)
Trimmed(s) == IF s # <<>> /\ Head(s) \in Blank THEN Trimmed(Tail(s)) ELSE IF s # <<>> /\ s[Len(s)] \in Blank THEN Trimmed(SubSeq(s, 1, Len(s) - 1)) ELSE s

TexOpened(name) == [section |-> "outside", id |-> DefaultName \o name, pats |-> <<>>, exc |-> <<>>]
\* the section that follows a line, and the entries that the line holds in its own section
After(section, line) ==
  LET u == Trimmed(Uncommented(line)) IN
  IF section = "outside" THEN (IF IsPrefixOf(PatternsGroup, u) THEN "patterns" ELSE IF IsPrefixOf(Hyphenation, u) THEN "exceptions" ELSE "outside")
  ELSE IF \E i \in 1..Len(u) : u[i] = Brace THEN "outside" ELSE section
Entries(section, line) ==
  IF section = "outside" THEN <<>>
  ELSE LET u == Trimmed(Uncommented(line)) IN Fields(Unbraced(u), <<>>)
ReadTex(d, line) ==
  LET e == Entries(d.section, line)
      u == Trimmed(Uncommented(line))
      x == [d EXCEPT !.section = After(d.section, line)]
  IN CASE d.section = "patterns" -> [x EXCEPT !.pats = @ \o [i \in 1..Len(e) |-> PatternOf(e[i])]]
       [] d.section = "exceptions" -> [x EXCEPT !.exc = @ \o [i \in 1..Len(e) |-> ExceptionOf(e[i])]]
       [] IsPrefixOf(Message, u) -> [x EXCEPT !.id = SubSeq(u, Len(Message) + 1, Len(u))]
       [] OTHER -> x

\* --- what the generator makes of a line: it drops comments, empty lines, and blanks at both ends
Generated(line) == LET u == Trimmed(Uncommented(line)) IN IF u = <<>> THEN <<>> ELSE <<u>>
====
