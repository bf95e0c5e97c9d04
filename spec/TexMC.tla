---- MODULE TexMC ----
(* Writes TeX sources line by line; on the way, reads the source as TeX does, and the generated file as the library does. *)
EXTENDS Tex, TLC, Json
CONSTANTS MaxLines
a == 97  b == 98
Comment == <<37, 32, a, 49, b, 125>>
Messages == << Message \o <<65, 125>>, Message \o <<125>> >>
PatternLines == << <<a, 49, b>>, <<32, 32, 49, b, 9, 46, a, 50, b>>, <<b, 49, 46, 37, 99, 49, a>>, <<50, a, 49, a, 32, 32, 37, 32, 37, 32, a, 49, a>> >>
ExceptionLines == << <<a, 45, b, 45, a>>, <<32, b, 45, b, b, 32, 37, 32, 45>>, <<a, b, 45, a, b, 37>> >>
VARIABLES lines, source, file, used
vars == <<lines, source, file, used>>
Name == <<122>>
RECURSIVE ReadAll(_, _)
ReadAll(d, ls) == IF ls = <<>> THEN d ELSE ReadAll(ReadLine(d, Head(ls)), Tail(ls))
Init == lines = <<>> /\ source = TexOpened(Name) /\ file = Opened(Name) /\ used = {}
Write(line, what) == Len(lines) < MaxLines /\ what \notin used /\ lines' = Append(lines, line) /\ source' = ReadTex(source, line)
                     /\ file' = ReadAll(file, Generated(line)) /\ used' = used \cup {what}
Noise == \E i \in 1..4 : Write(<<Comment, <<>>, <<32, 9>>, <<32>> \o Comment>>[i], <<"noise", i>>)
Outside == /\ source.section = "outside" /\ <<"exceptions", 0>> \notin used
           /\ \/ \E i \in 1..2 : Write(Messages[i] \o (IF i = 1 THEN <<>> ELSE <<32, 37>>), <<"message", 0>>)
              \/ \E c \in BOOLEAN : Write(IF c THEN PatternsGroup \o <<32, 37, 32, a>> ELSE PatternsGroup, <<"patterns", 0>>)
              \/ Write(<<32>> \o Hyphenation \o <<37>>, <<"exceptions", 0>>)
              \/ Write(<<92, a, 98>>, <<"command", 0>>)
Inside == \/ source.section = "patterns" /\ \E i \in 1..Len(PatternLines) : Write(PatternLines[i], <<"pattern", i>>)
          \/ source.section = "exceptions" /\ \E i \in 1..Len(ExceptionLines) : Write(ExceptionLines[i], <<"exception", i>>)
          \/ source.section = "exceptions" /\ Write(<<b, 45, a, 125, 32, 37, 125>>, <<"last", 0>>)
          \/ source.section # "outside" /\ Write(<<32, 125, 37>>, <<"close", source.section>>)
Next == Noise \/ Outside \/ Inside
Spec == Init /\ [][Next]_vars
\* what the library loads from the generated file is what TeX reads from the source
Faithful == file.pats = source.pats /\ file.exc = source.exc /\ file.id = source.id
Emit == PrintT("@@" \o ToJson([lines |-> lines]))
====
