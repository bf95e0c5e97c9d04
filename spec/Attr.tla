---- MODULE Attr ----
(* A state of attribute renderers and its iterators (attributes/).
   items: the renderers pushed so far; an item may start an attribute, show text, then stop the innermost open attribute.
   An iterator is a position: 0 before the first Next, n+1 once the items are exhausted. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES items, iters, levels, ret
avars == <<items, iters, levels, ret>>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* the attributes open after item i, outermost first: a stop closes the innermost one
RECURSIVE Open(_, _)
Entered(its, i) == LET s == Open(its, i - 1) IN IF its[i].start # <<>> THEN Append(s, i) ELSE s
Open(its, i) ==
  IF i = 0 THEN <<>>
  ELSE LET s == Entered(its, i) IN IF its[i].stop # <<>> /\ s # <<>> THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Range(s) == {s[i] : i \in 1..Len(s)}
\* the item that stops the attribute started by item a, 0 if none does
Stopper(its, a) ==
  LET c == {j \in a..Len(its) : a \notin Range(Open(its, j))}
  IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A k \in c : j <= k
MatchedAt(its, i) == i = 0 \/ its[i].stop = <<>> \/ Entered(its, i) # <<>>

Inside(its, p) == p \in 1..Len(its)
StartOfLine(its, p) == IF ~Inside(its, p) THEN <<>> ELSE LET o == Open(its, p) IN Concat([i \in 1..Len(o) |-> its[o[i]].start])
EndOfLine(its, p) ==
  IF ~Inside(its, p) THEN <<>>
  ELSE LET o == Reverse(Open(its, p))
       IN Concat([i \in 1..Len(o) |-> LET j == Stopper(its, o[i]) IN IF j = 0 THEN <<>> ELSE its[j].stop])

Describe(it) == [nil |-> FALSE, text |-> it.text, hasStart |-> it.start # <<>>, hasStop |-> it.stop # <<>>]
Nothing == [nil |-> TRUE, text |-> <<>>, hasStart |-> FALSE, hasStop |-> FALSE]
Members(c) == SelectSeq(c, LAMBDA x : ~x.nil)

AInit == items = <<>> /\ iters = <<>> /\ levels = TRUE /\ ret = [none |-> TRUE]

\* level -1: not specified (some stop has no start, or the stops of previous items have been changed)
\* levels: this is not the case of the items, the last one left aside
Push(a) ==
  /\ UNCHANGED iters
  /\ IF a.nil THEN UNCHANGED <<items, levels>> /\ ret' = Nothing @@ [level |-> 0]
     ELSE /\ items' = Append(items, [start |-> a.start, text |-> a.text, stop |-> a.stop])
          /\ levels' = (levels /\ MatchedAt(items, Len(items)))
          /\ ret' = Describe(a) @@ [level |-> IF levels' /\ MatchedAt(items', Len(items')) THEN Len(Entered(items', Len(items'))) ELSE -1]
SetStop(i, v) ==
  /\ UNCHANGED iters
  /\ items' = [items EXCEPT ![i].stop = v]
  /\ levels' = (levels /\ i = Len(items))
  /\ ret' = Describe(items'[i]) @@ [level |-> -1]
NewIter(p) == iters' = Append(iters, p) /\ UNCHANGED <<items, levels>> /\ ret' = <<>>
Advance(i) ==
  LET p == iters[i] IN
  /\ iters' = [iters EXCEPT ![i] = IF p > Len(items) THEN p ELSE p + 1]
  /\ ret' = [b |-> iters'[i] <= Len(items)]
  /\ UNCHANGED <<items, levels>>
Item(i) == ret' = (IF Inside(items, iters[i]) THEN Describe(items[iters[i]]) ELSE Nothing) @@ [level |-> -1] /\ UNCHANGED <<items, iters, levels>>
Write(w) == ret' = [w |-> w] /\ UNCHANGED <<items, iters, levels>>

\* op.i counts from 0
Do(op) ==
  CASE op.o = "push" -> Push(op.a)
    [] op.o = "setstop" -> SetStop(op.i + 1, op.v)
    [] op.o = "iter" -> NewIter(0)
    [] op.o = "first" -> NewIter(1)
    [] op.o = "next" -> Advance(op.i + 1)
    [] op.o = "item" -> Item(op.i + 1)
    [] op.o = "sol" -> Write(StartOfLine(items, iters[op.i + 1]))
    [] op.o = "eol" -> Write(EndOfLine(items, iters[op.i + 1]))
    [] op.o = "start" -> Write(LET m == Members(op.items) IN Concat([i \in 1..Len(m) |-> m[i].start]))
    [] op.o = "stop" -> Write(LET m == Members(op.items) IN Concat([i \in 1..Len(m) |-> m[i].stop]))
    [] op.o = "render" -> Write(LET m == Members(op.items) IN Concat([i \in 1..Len(m) |-> m[i].start \o m[i].text \o m[i].stop]))

Boundary == {"iter", "first", "next", "item", "sol", "eol"}
Rendering == {"push", "setstop", "start", "stop", "render"}
\* does the code (got) agree with the specification (want)?
Agree(o, want, got) ==
  IF o \in {"push", "setstop", "item"}
  THEN /\ \A f \in {"nil", "text", "hasStart", "hasStop"} : f \in DOMAIN got /\ got[f] = want[f]
       /\ want.level = -1 \/ got.level = want.level
  ELSE got = want

\* --- properties of the design
\* what a line boundary restores is what it closes: as many stops as starts, unless an attribute is never stopped
Restores == \A p \in 1..Len(items) :
  /\ Len(Open(items, p)) <= Cardinality({i \in 1..p : items[i].start # <<>>})
  /\ (\A a \in Range(Open(items, p)) : Stopper(items, a) > p \/ Stopper(items, a) = 0)
Nested == \A p \in 1..Len(items) : LET o == Open(items, p) IN
  /\ \A i, j \in 1..Len(o) : i < j => o[i] < o[j]
  \* innermost attributes are stopped first
  /\ \A i, j \in 1..Len(o) : i < j /\ Stopper(items, o[i]) # 0 => Stopper(items, o[j]) \in 1..(Stopper(items, o[i]) - 1)
====
