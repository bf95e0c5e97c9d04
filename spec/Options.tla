---- MODULE Options ----
(* The options of the line breaker ("lb"), of the hyphenator ("hyph") and of the measures of runes ("width").
   A list of options is applied in order on top of the documented defaults: what a user gets depends only on the
   configuration so resolved. Values are strings, whatever their type in the code. *)
EXTENDS Naturals, Sequences
Kinds == {"lb", "hyph", "width"}
Defaults(kind) ==
  CASE kind = "lb" -> [tol |-> "8.6", wb |-> "true", hyph |-> "default", punct |-> "default", pen |-> "300", flag |-> "100",
                       render |-> "true", scale |-> "1", meas |-> "default"]
    [] kind = "hyph" -> [lang |-> "en-US", len |-> "4", left |-> "2", right |-> "2"]
    [] kind = "width" -> [ea |-> "false", skip |-> "false", amb |-> "2"]
\* the functions of the library given explicitly: a hyphenator for American English, a punctuator
Given(o) == IF o.n \in {"hyph", "punct"} /\ o.v = "library" THEN "default" ELSE o.v
\* one option: [n |-> name, v |-> value]
Apply(conf, o) ==
  CASE o.n = "hyph" -> [conf EXCEPT !.hyph = Given(o), !.wb = "true"]    \* a hyphenator implies that words are broken
    [] o.n = "punct" -> [conf EXCEPT !.punct = Given(o)]
    [] o.n = "hpen" -> [conf EXCEPT !.pen = o.v, !.flag = o.v]
    [] o.n = "tag" -> [conf EXCEPT !.lang = o.v]                    \* a language given as a tag, not as a text
    [] OTHER -> [conf EXCEPT ![o.n] = o.v]
RECURSIVE Fold(_, _)
Fold(conf, opts) == IF opts = <<>> THEN conf ELSE Fold(Apply(conf, Head(opts)), Tail(opts))
ConfOf(kind, opts) == Fold(Defaults(kind), opts)
\* configurations that cannot be told apart: hyphenation is not used when words are not broken
Meaning(kind, conf) == IF kind = "lb" /\ conf.wb = "false" THEN [conf EXCEPT !.hyph = "default", !.render = "true"] ELSE conf

\* what an option sets
Sets(n) == CASE n = "hyph" -> {"hyph", "wb"} [] n = "hpen" -> {"pen", "flag"} [] n = "tag" -> {"lang"} [] OTHER -> {n}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Swapped(s, i) == [k \in 1..Len(s) |-> IF k = i THEN s[i + 1] ELSE IF k = i + 1 THEN s[i] ELSE s[k]]
\* an option is of no effect when all that it sets is set later
Shadowed(s, i) == Sets(s[i].n) \subseteq UNION {Sets(s[j].n) : j \in (i + 1)..Len(s)}
LastWins(kind, s) == \A i \in 1..Len(s) : Shadowed(s, i) => ConfOf(kind, Without(s, i)) = ConfOf(kind, s)
Commute(kind, s) == \A i \in 1..(Len(s) - 1) : Sets(s[i].n) \cap Sets(s[i + 1].n) = {} => ConfOf(kind, Swapped(s, i)) = ConfOf(kind, s)
\* what is set is what was given last
Effective(kind, s) == \A i \in 1..Len(s) : \A f \in Sets(s[i].n) :
  (\A j \in (i + 1)..Len(s) : f \notin Sets(s[j].n)) => ConfOf(kind, s)[f] = (IF f = "wb" /\ s[i].n = "hyph" THEN "true" ELSE Given(s[i]))
Untouched(kind, s) == \A f \in DOMAIN Defaults(kind) : (\A i \in 1..Len(s) : f \notin Sets(s[i].n)) => ConfOf(kind, s)[f] = Defaults(kind)[f]

\* a shortest list of options, in the order of the documentation, that resolves to a configuration, if any
Opt(n, v) == [n |-> n, v |-> v]
If(c, s) == IF c THEN s ELSE <<>>
Canonical(kind, c) == LET d == Defaults(kind) IN
  CASE kind = "lb" -> If(c.tol # d.tol, <<Opt("tol", c.tol)>>) \o If(c.scale # d.scale, <<Opt("scale", c.scale)>>) \o If(c.meas # d.meas, <<Opt("meas", c.meas)>>)
                      \o If(c.hyph # d.hyph, <<Opt("hyph", c.hyph)>>) \o If(c.wb # d.wb, <<Opt("wb", c.wb)>>) \o If(c.punct # d.punct, <<Opt("punct", c.punct)>>)
                      \o If(c.pen # d.pen \/ c.flag # d.flag, <<Opt("hpen", c.pen)>>) \o If(c.render # d.render, <<Opt("render", c.render)>>)
    [] kind = "hyph" -> If(c.lang # d.lang, <<Opt("lang", c.lang)>>) \o If(c.len # d.len, <<Opt("len", c.len)>>) \o If(c.left # d.left, <<Opt("left", c.left)>>)
                        \o If(c.right # d.right, <<Opt("right", c.right)>>)
    [] kind = "width" -> If(c.ea # d.ea, <<Opt("ea", c.ea)>>) \o If(c.skip # d.skip, <<Opt("skip", c.skip)>>) \o If(c.amb # d.amb, <<Opt("amb", c.amb)>>)
\* options which users tell apart: on some of the texts observed, they do not give the same results
MustDiffer(kind) ==
  CASE kind = "lb" -> {<<Opt("tol", "8.6"), Opt("tol", "0.5")>>, <<Opt("tol", "2"), Opt("tol", "inf")>>, <<Opt("wb", "true"), Opt("wb", "false")>>, <<Opt("hyph", "default"), Opt("hyph", "every1")>>,
                       <<Opt("hyph", "every1"), Opt("hyph", "every2")>>, <<Opt("punct", "default"), Opt("punct", "off")>>, <<Opt("hpen", "0"), Opt("hpen", "1000")>>,
                       <<Opt("render", "true"), Opt("render", "false")>>, <<Opt("scale", "1"), Opt("scale", "10")>>, <<Opt("meas", "default"), Opt("meas", "len")>>, <<Opt("meas", "len"), Opt("meas", "two")>>}
    [] kind = "hyph" -> {<<Opt(n, a), Opt(m, b)>> : n \in {"lang", "tag"}, m \in {"lang", "tag"}, a \in {"en-US", "en-GB"}, b \in {"fr", "de", "es"}}
    [] kind = "width" -> {<<Opt("ea", "true"), Opt("ea", "false")>>}
====
