---- MODULE Total ----
(* How each exported call of the library may end, over a session of calls that share objects: with a value, with one of
   the documented errors ("eof", "range", "cannot", or the error of something outside the library), or with a panic.
   A panic is only ever allowed where the documentation says so (offsets that do not come in pairs), or where the caller
   designates runes that do not exist. *)
EXTENDS Utf8, FiniteSets

Pure == {"tokenize", "tokenizeString", "fields", "punctuate", "punctuateString", "isPunctuation", "splitWord", "isHyphen",
         "newHyphenator", "newHyphenatorTag", "hyphenate", "hyphenateString", "dictionary", "supportedPatterns",
         "strip", "stripOne", "width", "widths", "stringWidth",
         "newReader", "unread", "newWriter",
         "newState", "newAttribute", "setStop", "setLevel", "push", "pushNil", "iterator", "first", "next", "item",
         "startOfLine", "endOfLine", "renderAll",
         "newLineBreaker", "defaultLineBreaker", "hyphenatorLineBreaker", "put", "get", "delete"}
Rendering == {"startOfLine", "endOfLine", "renderAll"}
Files == {"hyph-de-1996.tex", "hyph-en-gb.tex", "hyph-es.tex", "hyph-fr.tex", "ushyphmax.tex"}

(* state of the session, as far as the outcomes depend on it: the reader, and what the sink of the writer still accepts
   (-1: everything, -2: unknown, as rendering attributes does not report what it wrote) *)
TInit == [reader |-> <<>>, pos |-> 0, left |-> -1]

Even(n) == n % 2 = 0
Ordered(n, max) == \A i \in 1..Len(n) : i % 2 = 1 => (0 <= n[i] /\ n[i] <= n[i + 1] /\ n[i + 1] <= max)
Aligned(n, reader) == (\A i \in 1..Len(reader) : ValidRune(reader[i])) /\ \A i \in 1..Len(n) : \E j \in 0..Len(reader) : n[i] = ByteLen(SubSeq(reader, 1, j))
Target(op, s) == op.n[1] + (CASE op.n[2] = 0 -> 0 [] op.n[2] = 2 -> Len(s.reader) [] OTHER -> s.pos)
Size(op) == IF op.api = "writeRune" THEN Len(Encode(op.n[1])) ELSE Len(EncodeAll(op.r))

Ends(op, s) ==
  CASE op.api \in Pure -> {"value"}
    [] op.api = "readRune" -> IF s.pos < Len(s.reader) THEN {"value"} ELSE {"eof"}
    [] op.api = "seek" -> IF Target(op, s) \in 0..Len(s.reader) THEN {"value"} ELSE {"range"}
    [] op.api = "slices" -> IF ~Even(Len(op.n)) THEN {"panic"} ELSE IF Ordered(op.n, Len(s.reader)) THEN {"value"} ELSE {"value", "panic"}
    [] op.api = "byteSlices" -> IF ~Even(Len(op.n)) THEN {"panic"} ELSE IF Aligned(op.n, s.reader) /\ Ordered(op.n, ByteLen(s.reader)) THEN {"value"} ELSE {"value", "panic"}
    [] op.api \in {"writeRune", "writeRunes"} -> IF s.left = -1 THEN {"value"} ELSE IF s.left = -2 THEN {"value", "error"} ELSE IF Size(op) <= s.left THEN {"value"} ELSE {"error"}
    [] op.api = "setParagraph" -> IF op.t = <<>> THEN {"value"} ELSE {"value", "cannot"}
    [] op.api = "loadPatterns" -> IF op.name \in Files THEN {"value"} ELSE {"error"}

\* ended: how the call ended
After(op, s, ended) ==
  CASE op.api = "newReader" -> [s EXCEPT !.reader = op.r, !.pos = 0]
    [] op.api = "readRune" /\ ended = "value" -> [s EXCEPT !.pos = @ + 1]
    [] op.api = "seek" /\ ended = "value" -> [s EXCEPT !.pos = Target(op, s)]
    [] op.api = "newWriter" -> [s EXCEPT !.left = op.n[1]]
    [] op.api \in {"writeRune", "writeRunes"} /\ s.left >= 0 -> [s EXCEPT !.left = IF Size(op) <= @ THEN @ - Size(op) ELSE 0]
    [] op.api \in Rendering /\ s.left >= 0 -> [s EXCEPT !.left = -2]
    [] OTHER -> s
====
