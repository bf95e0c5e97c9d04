---- MODULE LoadMC ----
(* Writes pattern files line by line, and reads them at the same time. *)
EXTENDS Load, TLC, Json
CONSTANTS MaxLines
a == 97  b == 98
\* lines of patterns, with no pattern in common; one entry of the second pool is used once in a file
PatternLines == << <<a, 49, b>>, <<49, b, 32, 32, 46, a, 50, b, 32, b, 49, 46>>, <<9, 50, a, 49, 97, 32>>, <<b, 51, a, 50, b>>, <<46, b, 49>> >>
ExceptionLines == << <<a, 45, b, 45, a>>, <<b, 45, b, b>>, <<a, b, 45, a, b>>, <<b, a>> >>
Others == << <<>>, <<37, 32, a, 49, b>>, <<92, 112, 97, 116, 116, 101, 114, 110, 115, 123>>, <<125>>, Message \o <<65, 32, 48, 125>>, Message, <<92, a>>, <<37, 125>> >>
VARIABLES lines, d, used
vars == <<lines, d, used>>
Name == <<122>>
Init == lines = <<>> /\ d = Opened(Name) /\ used = {}
Write(line) == Len(lines) < MaxLines /\ lines' = Append(lines, line) /\ d' = ReadLine(d, line)
Patterns == \E i \in 1..Len(PatternLines) : <<"p", i>> \notin used /\ d.section = "patterns" /\ Write(PatternLines[i]) /\ used' = used \cup {<<"p", i>>}
Opens == d.section = "patterns" /\ Write(Hyphenation) /\ UNCHANGED used
Excepts == \E i \in 1..Len(ExceptionLines), close \in BOOLEAN :
  /\ <<"e", i>> \notin used /\ d.section = "exceptions"
  /\ Write(IF close THEN Append(ExceptionLines[i], 125) ELSE ExceptionLines[i]) /\ used' = used \cup {<<"e", i>>}
Other == \E i \in 1..Len(Others) : (d.section = "exceptions" => i \in {1, 2, 4}) /\ <<"o", i>> \notin used /\ Write(Others[i]) /\ used' = used \cup {<<"o", i>>}
Next == Patterns \/ Opens \/ Excepts \/ Other
Spec == Init /\ [][Next]_vars
\* nothing that was read is lost or changed by the lines that follow
Grows == [][IsPrefixOf(d.pats, d'.pats) /\ IsPrefixOf(d.exc, d'.exc)]_vars
\* every line written is in the dictionary
Complete == /\ Len(d.exc) = Cardinality({u \in used : u[1] = "e"})
            /\ \A u \in used : u[1] = "p" => \A f \in {Fields(PatternLines[u[2]], <<>>)} : \A k \in 1..Len(f) : \E m \in 1..Len(d.pats) : d.pats[m] = PatternOf(f[k])
Named == d.id = DefaultName \o Name \/ \E i \in 5..6 : <<"o", i>> \in used
Emit == PrintT("@@" \o ToJson([lines |-> lines]))
====
