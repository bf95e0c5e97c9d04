---- MODULE LineBreak ----
(* Breaking a paragraph in left-aligned lines of the same width (linebreak/).

   A paragraph is a sequence of pieces that no break may split. Each piece has a joint with the next one:
     space  between two tokens (the space disappears at a line break)
     soft   a hyphenation point (a hyphen may be shown at a line break)
     hard   after an explicit hyphen
     mark   after a punctuation mark
     none   no break is allowed
     end    the end of the paragraph
   A transition of the specification sets one line, from a break to a legal break further on.

   f holds facts about the environment: runes, a sequence of [r, m, punct, hyphen], and parts, what the hyphenator
   returns for words. Measures m are in units of 1/q; the requested width is in hundredths.
   c is a configuration: [tol10, wb, hpen, flag, render, scale, q, punct, hyph, every]; q divides scale.
   The paragraph is set with integers: measures multiplied by the scale, and the requested width likewise, rounded down. *)
EXTENDS Integers, Sequences, FiniteSets, Big
A == INSTANCE Ansi WITH in <- <<>>, at <- 1, phase <- "done", cur <- <<>>, pieces <- <<>>

Space == 32
Dash == 45
Bar == 124
MinHyphenate == 4

Fact(f, r) == f.runes[CHOOSE i \in 1..Len(f.runes) : f.runes[i].r = r]
IsHyphen(f, r) == Fact(f, r).hyphen
IsMark(f, r) == r = Bar \/ (Fact(f, r).punct /\ ~Fact(f, r).hyphen)
Measure(f, c, r) == (Fact(f, r).m * c.scale) \div c.q
RECURSIVE MeasureAll(_, _, _)
MeasureAll(f, c, s) == IF s = <<>> THEN 0 ELSE Measure(f, c, Head(s)) + MeasureAll(f, c, Tail(s))

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Some(s) == IF s = <<>> THEN <<>> ELSE <<s>>

\* --- escape sequences: the visible runes of a text, and its runs of visible runes without an escape sequence in between
Plain(it) == it[3] = "plain"
RECURSIVE VisibleOf(_, _)
VisibleOf(s, items) == IF items = <<>> THEN <<>>
                       ELSE (IF Head(items)[3] \in {"start", "stop"} THEN <<>> ELSE SubSeq(s, Head(items)[1], Head(items)[2])) \o VisibleOf(s, Tail(items))
Visible(s) == VisibleOf(s, A!Items(s))
RECURSIVE SegmentsOf(_, _, _)
SegmentsOf(s, items, seg) ==
  IF items = <<>> THEN Some(seg)
  ELSE LET it == Head(items) IN
       IF it[3] \in {"start", "stop"} THEN Some(seg) \o SegmentsOf(s, Tail(items), <<>>)
       ELSE SegmentsOf(s, Tail(items), seg \o SubSeq(s, it[1], it[2]))
Segments(s) == SegmentsOf(s, A!Items(s), <<>>)

\* --- pieces
RECURSIVE SplitKeep(_, _, _)
SplitKeep(s, seps, part) ==
  IF s = <<>> THEN Some(part)
  ELSE IF Head(s) \in seps THEN Some(part) \o <<<<Head(s)>>>> \o SplitKeep(Tail(s), seps, <<>>)
  ELSE SplitKeep(Tail(s), seps, Append(part, Head(s)))
RunesOf(s) == {s[i] : i \in 1..Len(s)}
Marks(f, s) == {r \in RunesOf(s) : IsMark(f, r)}
Hyphens(f, s) == {r \in RunesOf(s) : IsHyphen(f, r)}
RECURSIVE CutEvery(_, _)
CutEvery(w, k) == IF Len(w) <= k THEN <<w>> ELSE <<SubSeq(w, 1, k)>> \o CutEvery(SubSeq(w, k + 1, Len(w)), k)
HyphenParts(f, c, w) ==
  IF c.hyph = "every" THEN CutEvery(w, c.every)
  ELSE f.parts[CHOOSE i \in 1..Len(f.parts) : f.parts[i].w = w].parts
Piece(r, joint) == [r |-> r, joint |-> joint]
Word(f, c, w) == LET p == HyphenParts(f, c, w) IN [i \in 1..Len(p) |-> Piece(p[i], IF i < Len(p) THEN "soft" ELSE "none")]
Chunk(f, c, s) ==
  IF Len(s) = 1 /\ IsMark(f, s[1]) THEN <<Piece(s, "mark")>>
  ELSE IF ~c.wb \/ Len(s) <= MinHyphenate THEN <<Piece(s, "none")>>
  ELSE LET parts == SplitKeep(s, Hyphens(f, s), <<>>)
       IN Flatten([i \in 1..Len(parts) |-> IF Len(parts[i]) = 1 /\ IsHyphen(f, parts[i][1]) THEN <<Piece(parts[i], "hard")>> ELSE Word(f, c, parts[i])])
Segment(f, c, s) ==
  LET chunks == IF c.punct = "off" THEN <<s>> ELSE SplitKeep(s, Marks(f, s), <<>>)
  IN Flatten([i \in 1..Len(chunks) |-> Chunk(f, c, chunks[i])])
Token(f, c, s, joint) ==
  LET segs == Segments(s)
      p == Flatten([i \in 1..Len(segs) |-> Segment(f, c, segs[i])])
  IN IF p = <<>> THEN <<Piece(<<>>, joint)>> ELSE [p EXCEPT ![Len(p)].joint = joint]
Pieces(f, c, tokens) == Flatten([i \in 1..Len(tokens) |-> Token(f, c, tokens[i], IF i < Len(tokens) THEN "space" ELSE "end")])

\* --- a paragraph: pieces, with the text and the width up to the end of each one
RECURSIVE Layout(_, _, _, _)
Layout(f, c, ps, done) ==
  IF ps = <<>> THEN done
  ELSE LET p == Head(ps) n == Len(done)
           prev == IF n = 0 THEN [to |-> 0, w |-> 0, joint |-> "start"] ELSE done[n]
           gap == IF prev.joint = "space" THEN 1 ELSE 0
           from == prev.to + gap
           left == prev.w + gap * Measure(f, c, Space)
       IN Layout(f, c, Tail(ps), Append(done,
            [joint |-> p.joint, from |-> from, to |-> from + Len(p.r), left |-> left, w |-> left + MeasureAll(f, c, p.r)]))
Paragraph(f, c, tokens, width) ==
  LET ps == Pieces(f, c, tokens)
  IN [text |-> Flatten([i \in 1..Len(ps) |-> IF ps[i].joint = "space" THEN Append(ps[i].r, Space) ELSE ps[i].r]),
      at |-> Layout(f, c, ps, <<>>), W |-> (width * c.scale) \div 100, hy |-> IF c.render THEN Measure(f, c, Dash) ELSE 0, c |-> c]

Count(p) == Len(p.at)
\* a line is (i, j): pieces i+1 to j
Legal(p, j) == p.at[j].joint # "none"
Natural(p, i, j) == p.at[j].w - p.at[i + 1].left + (IF p.at[j].joint = "soft" THEN p.hy ELSE 0)
LineText(p, i, j) == SubSeq(p.text, p.at[i + 1].from + 1, p.at[j].to) \o (IF p.at[j].joint = "soft" /\ p.c.render THEN <<Dash>> ELSE <<>>)
Feasible(p, i, j) ==
  LET w == Natural(p, i, j) IN w <= p.W /\ (p.at[j].joint = "end" \/ 10 * (p.W - w) <= 6 * p.c.tol10)

\* --- demerits, in units of 1/46656: (10 + penalty + 100 ratio^3)^2, with 6 ratio = d
Unit == 46656
Zero == <<>>
None == <<-1>>   \* no way
Better(a, b) == IF a = None THEN b ELSE IF b = None THEN a ELSE Min(a, b)
Plus(a, b) == IF a = None \/ b = None THEN None ELSE Add(a, b)
Units(n) == Mul(FromInt(Unit), FromInt(n))
Penalty(c, joint) == CASE joint = "soft" -> c.hpen [] joint = "hard" -> 200 [] joint = "mark" -> 400 [] OTHER -> 0
Flagged(joint) == joint \in {"soft", "hard", "mark", "end"}
Stretched(p, i, j) == IF p.at[j].joint = "end" THEN 0 ELSE p.W - Natural(p, i, j)
Class(p, i, j) == LET d == Stretched(p, i, j) IN IF d <= 3 THEN 1 ELSE IF d <= 6 THEN 2 ELSE 3
LineCost(p, i, j) ==
  LET d == Stretched(p, i, j)
      t == Add(FromInt((10 + Penalty(p.c, p.at[j].joint)) * 216), Mul(Mul(FromInt(d), FromInt(d)), FromInt(d * 100)))
      flags == IF i > 0 /\ Flagged(p.at[i].joint) /\ Flagged(p.at[j].joint) THEN p.c.flag ELSE 0
  IN Add(Mul(t, t), Units(flags))
Fitness(a, b) == IF a - b > 1 \/ b - a > 1 THEN Units(200) ELSE Zero

\* --- all the ways to set the paragraph
\* reachable breaks, the start being 0
RECURSIVE Reach(_, _, _)
Reach(p, j, S) ==
  IF j > Count(p) THEN S
  ELSE Reach(p, j + 1, IF Legal(p, j) /\ \E i \in S : Feasible(p, i, j) THEN S \cup {j} ELSE S)
Settable(p) == Count(p) \in Reach(p, 1, {0})

\* best[j + 1][k]: minimal demerits of the lines up to break j, the last one having fitness class k
RECURSIVE Scan(_, _, _, _, _)
Scan(p, best, i, j, row) ==
  IF i < 0 \/ Natural(p, i, j) > p.W THEN row
  ELSE IF best[i + 1] = <<None, None, None>> \/ ~Feasible(p, i, j) THEN Scan(p, best, i - 1, j, row)
  ELSE LET k == Class(p, i, j)
           before == Better(Better(Plus(best[i + 1][1], Fitness(1, k)), Plus(best[i + 1][2], Fitness(2, k))), Plus(best[i + 1][3], Fitness(3, k)))
       IN Scan(p, best, i - 1, j, [row EXCEPT ![k] = Better(@, Plus(before, LineCost(p, i, j)))])
RECURSIVE Best(_, _, _)
Best(p, best, j) ==
  IF j > Count(p) THEN best
  ELSE Best(p, Append(best, IF Legal(p, j) THEN Scan(p, best, j - 1, j, <<None, None, None>>) ELSE <<None, None, None>>), j + 1)
Optimal(p) ==
  LET b == Best(p, <<<<Zero, None, None>>>>, 1) last == b[Len(b)]
  IN Better(Better(last[1], last[2]), last[3])

\* --- attributes: start...stop, well nested: a stop sequence closes the latest start sequence
Last(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
\* the runes of the source with the start sequences in effect, and whether a token ends after them
RECURSIVE ShownFrom(_, _, _, _)
ShownFrom(s, items, state, pairs) ==
  IF items = <<>> THEN [runes |-> <<>>, state |-> state, pairs |-> pairs]
  ELSE LET it == Head(items) x == SubSeq(s, it[1], it[2]) IN
       IF it[3] = "start" THEN ShownFrom(s, Tail(items), Append(state, x), pairs)
       ELSE IF it[3] = "stop" THEN ShownFrom(s, Tail(items), Pop(state), pairs \cup {<<Last(state), x>>})
       ELSE LET rest == ShownFrom(s, Tail(items), state, pairs)
            IN [rest EXCEPT !.runes = <<<<s[it[1]], state>>>> \o @]
RECURSIVE Shown(_, _, _)
Shown(tokens, state, pairs) ==
  IF tokens = <<>> THEN [runes |-> <<>>, ends |-> <<>>, pairs |-> pairs]
  ELSE LET t == ShownFrom(Head(tokens), A!Items(Head(tokens)), state, pairs)
           rest == Shown(Tail(tokens), t.state, t.pairs)
       IN [runes |-> t.runes \o rest.runes, pairs |-> rest.pairs,
           ends |-> <<Len(t.runes)>> \o [i \in 1..Len(rest.ends) |-> rest.ends[i] + Len(t.runes)]]
\* a terminal shows the runes of a line: positions of the source that may be reached, and its state
RECURSIVE Emulate(_, _, _, _, _)
Emulate(src, s, items, state, at) ==
  IF items = <<>> THEN [state |-> state, at |-> at]
  ELSE LET it == Head(items) x == SubSeq(s, it[1], it[2]) IN
       IF it[3] = "start" THEN Emulate(src, s, Tail(items), Append(state, x), at)
       ELSE IF it[3] = "stop" THEN Emulate(src, s, Tail(items), IF state # <<>> /\ <<Last(state), x>> \in src.pairs THEN Pop(state) ELSE Append(state, <<>>), at)
       ELSE LET r == s[it[1]]
                same == {k + 1 : k \in {k \in at : k < Len(src.runes) /\ src.runes[k + 1] = <<r, state>>}}
                spaces == IF r = Space THEN {k \in at : \E i \in 1..Len(src.ends) : src.ends[i] = k} ELSE {}
                dash == IF r = Dash /\ \A i \in 2..Len(items) : ~Plain(items[i]) THEN at ELSE {}
            IN Emulate(src, s, Tail(items), state, same \cup spaces \cup dash)
====
