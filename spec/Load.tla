---- MODULE Load ----
(* Loading a pattern file, line by line (wordbreak/hyphenator.LoadPatterns), in the format of the bundled files: an optional
   \message line names the dictionary; lines of patterns separated by blanks; at last, after a \hyphenation line, one
   exception on each line. Lines that are empty or begin with % \ or } hold no entry; the last exception may be followed by }.
   Lines and names are sequences of runes. *)
EXTENDS Hyph

Message == <<92, 109, 101, 115, 115, 97, 103, 101, 123>>                            \* \message{
Hyphenation == <<92, 104, 121, 112, 104, 101, 110, 97, 116, 105, 111, 110, 123>>    \* \hyphenation{
DefaultName == <<112, 97, 116, 116, 101, 114, 110, 115, 58, 32>>                    \* patterns:
Blank == {9, 32}
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
NoEntry(line) == line = <<>> \/ Head(line) \in {37, 92, 125}
RECURSIVE Fields(_, _)
Fields(s, cur) ==
  IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF Head(s) \in Blank THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Fields(Tail(s), <<>>)
  ELSE Fields(Tail(s), Append(cur, Head(s)))
Unbraced(line) == IF line # <<>> /\ line[Len(line)] = 125 THEN SubSeq(line, 1, Len(line) - 1) ELSE line

Opened(name) == [section |-> "patterns", id |-> DefaultName \o name, pats |-> <<>>, exc |-> <<>>]
ReadLine(d, line) ==
  IF d.section = "exceptions"
  THEN LET x == Unbraced(line) IN IF NoEntry(x) THEN d ELSE [d EXCEPT !.exc = Append(@, ExceptionOf(x))]
  ELSE IF IsPrefixOf(Message, line) THEN [d EXCEPT !.id = SubSeq(line, Len(Message) + 1, Len(line))]
  ELSE IF IsPrefixOf(Hyphenation, line) THEN [d EXCEPT !.section = "exceptions"]
  ELSE IF NoEntry(line) THEN d
  ELSE LET f == Fields(line, <<>>) IN [d EXCEPT !.pats = @ \o [i \in 1..Len(f) |-> PatternOf(f[i])]]

\* --- hyphenation with such a dictionary
Hits(d, w) == UNION {{<<i, d.pats[m].v>> : i \in {j \in 1..(Len(w) - Len(d.pats[m].l) + 1) : SubSeq(w, j, j + Len(d.pats[m].l) - 1) = d.pats[m].l}} : m \in 1..Len(d.pats)}
Allowed(d, w) ==
  IF IsException(d, w) THEN LET e == d.exc[CHOOSE m \in Exceptions(d, w) : TRUE] IN {k \in 1..(Len(w) - 1) : e.v[k + 1] % 2 = 1}
  ELSE LET occ == Hits(d, <<Dot>> \o w \o <<Dot>>) IN {k \in 1..(Len(w) - 1) : Value(occ, k) % 2 = 1}
Split(d, w, c) == Parts(w, IF Len(w) < c.minLen THEN <<>> ELSE Retain(Allowed(d, w), 1, 0, Len(w), c))

\* --- the list of the files: all of them, in the order of their names
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE IF Head(a) = Head(b) THEN Before(Tail(a), Tail(b)) ELSE Head(a) < Head(b)
Listing(files, listed) == {listed[i] : i \in 1..Len(listed)} = files /\ \A i \in 1..(Len(listed) - 1) : Before(listed[i], listed[i + 1])
====
