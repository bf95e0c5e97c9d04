---- MODULE TotalMC ----
(* Sessions that combine every way to build an object with every way to use it, on arguments at the edge of each type. *)
EXTENDS Total, TLC, Json
CONSTANTS Wide, \* TRUE: more combinations of the parameters of a line breaker
          Depth \* number of attributes pushed

E1 == <<27, 91, 49, 109>>  E0 == <<27, 91, 109>>
Texts == <<
  <<>>, <<97>>, <<32>>, <<45>>, <<46>>, <<0>>, <<-1>>, <<1114112>>, <<55296, 57343>>, <<2147483647, -2147483647 - 1>>, <<65533>>,
  <<27>>, <<27, 91>>, <<27, 91, 59>>, <<27, 91, 49, 50, 51>>, <<27, 91, 49, 50, 51, 52, 109>>, E1, E0, E0 \o E1, E1 \o <<97>>, <<97>> \o E0, <<27, 27, 91, 109, 27>>,
  E1 \o <<97, 98, 99, 100, 101, 102, 45, 45, 46, 46>> \o E0, <<27, 91, 27, 91, 27>>, <<27, 91, 48, 58, 48, 109>>, <<27, 91, 115, 27, 91, 117>>,
  <<99, 111, 109, 112, 117, 116, 101, 114>>, <<99, 111, 109, 112, 117, 116, 101, 114, 45, 97, 105, 100, 101, 100, 46, 33>>, <<233, 8364, 128512, 769, 769, 4352, 8203>>, <<11834, 11835, 173>>,
  <<304, 223, 8490, 7838, 97, 105, 304, 223>>, <<97, 46, 46, 98, 45, 45, 46>>, <<45, 45, 45, 45, 45, 45>>, <<124, 124, 97, 98, 99, 100, 101, 102, 124>>,
  <<9, 10, 13, 160, 8232, 12288>>, <<109, 105, 115, 115, 105, 115, 115, 105, 112, 112, 105>>, <<46, 97, 46, 98, 48, 49, 50, 46>>>>
Strings == <<<<>>, <<97>>, <<255>>, <<195>>, <<195, 40>>, <<237, 160, 128>>, <<240, 159, 152>>, <<27, 91, 255, 109>>, <<32, 255, 32>>, <<99, 111, 109, 112, 195, 169, 255, 116, 101, 114>>, <<0, 0>>>>
Languages == {"", "en", "fr", "de-AT", "es_MX", "zz", "x", "-", "en-", "und", "art-lojban", "i-klingon", "zh-Hant-TW-u-co-pinyin-x-y", "a-b-c-d-e-f-g", "0", "C", "POSIX", "fr-", "*"}
Ints == {-2147483647, -1, 0, 1, 2, 3, 4, 5, 100, 2147483647}
Floats == {"0", "1", "-1", "NaN", "+Inf", "-Inf", "1e300", "-1e300", "5e-324", "0.1", "10000", "-10000"}
Base == <<"8.6", "1", "300", "1">>   \* tolerance, scale factor, hyphen penalty, measure of a rune
Params ==
  {[Base EXCEPT ![i] = a, ![j] = b] : i \in 1..3, j \in 2..4, a \in Floats, b \in Floats}
  \cup (IF Wide THEN {[Base EXCEPT ![2] = a, ![4] = b, ![1] = c] : a \in Floats, b \in Floats, c \in {"0", "NaN", "+Inf", "-1"}} ELSE {})
Paragraphs == <<
  <<>>, << <<>> >>, << <<>>, <<>>, <<>> >>, << <<97>> >>, << <<97>>, <<98, 98>>, <<>>, <<99, 99, 99>> >>,
  << <<255>>, <<195, 40>> >>, << E1, <<97>>, E0 >>, << E0, E0, E1 >>, << E1 \o <<97, 98>> \o E0 \o E0, <<46>> \o E1, <<45>> >>,
  << <<99, 111, 109, 112, 117, 116, 101, 114>>, <<46, 46>>, <<45, 45, 45, 45, 45, 45>> >>, << <<32>>, <<10>>, <<32, 32>> >>,
  << <<27>>, <<27, 91>>, <<91, 109>> >>, << <<97, 46>>, <<46, 97>>, <<124>>, <<99, 111, 109, 112, 117, 116, 101, 114, 45, 97, 105, 100, 101, 100>> \o E0 >> >>
Widths == {"0", "-1", "1", "7.5", "100", "NaN", "+Inf", "-Inf", "1e300", "5e-324"}

VARIABLES comp, st, hist, a, rets
vars == <<comp, st, hist, a, rets>>
o(api) == [api |-> api]
Texted(apis) == {[api |-> x, r |-> Texts[i]] : x \in apis, i \in 1..Len(Texts)}
Stringed(apis) == {[api |-> x, s |-> Strings[i]] : x \in apis, i \in 1..Len(Strings)}
Nums(api) == {[api |-> api, n |-> <<x>>] : x \in Ints}
Opts == {[on |-> <<x, y>>, w |-> z] : x \in BOOLEAN, y \in BOOLEAN, z \in {-1, 0, 2, 2147483647}}

\* every component has the calls that build its object (which move to a new state), and the calls that use it
Builds ==
  CASE comp = "hyphenator" -> {[api |-> "newHyphenator", name |-> l, n |-> <<4, 2, 2>>] : l \in Languages}
                              \cup {[api |-> "newHyphenatorTag", name |-> l, n |-> <<2>>] : l \in Languages}
                              \cup {[api |-> "newHyphenator", name |-> "en", n |-> <<x, y, z>>] : x \in {-1, 0, 1, 2147483647}, y \in {-2147483647, -1, 0, 1, 3, 2147483647}, z \in {-2147483647, -1, 0, 1, 3, 2147483647}}
    [] comp = "lines" -> {[api |-> "newLineBreaker", x |-> p, on |-> <<TRUE, TRUE>>, n |-> <<0>>] : p \in Params}
                         \cup {[api |-> "newLineBreaker", x |-> [Base EXCEPT ![i] = f], on |-> <<h, b>>, n |-> <<q>>] : i \in 1..4, f \in Floats, h \in BOOLEAN, b \in BOOLEAN, q \in {0, -1}}
                         \cup {o("defaultLineBreaker"), o("hyphenatorLineBreaker")}
    [] comp = "reader" -> {[api |-> "newReader", r |-> Texts[i]] : i \in {1, 2, 8, 9, 16, 29}}
    [] comp = "writer" -> {[api |-> "newWriter", n |-> <<b>>] : b \in 0..5}
    [] comp = "attributes" -> Texted({"newAttribute"})
    [] OTHER -> {}
Uses ==
  CASE comp = "stateless" -> Texted({"tokenize", "punctuate", "isPunctuation", "splitWord", "isHyphen", "strip", "stripOne"}) \cup Stringed({"tokenizeString", "punctuateString"})
         \cup {[api |-> "fields", r |-> Texts[i], n |-> <<m>>] : i \in 1..Len(Texts), m \in 0..4}
         \cup {[api |-> "width", n |-> <<r, p.w>>, on |-> p.on] : r \in Ints \cup {55296, 65533, 1114111, 1114112, 11835}, p \in Opts}
         \cup {[api |-> "widths", r |-> Texts[i], n |-> <<0, p.w>>, on |-> p.on] : i \in 1..Len(Texts), p \in Opts}
         \cup {[api |-> "stringWidth", s |-> Strings[i], n |-> <<0, p.w>>, on |-> p.on] : i \in 1..Len(Strings), p \in Opts}
         \cup {[api |-> "loadPatterns", name |-> f] : f \in Files \cup {"", ".", "..", "hyph-fr", "HYPH-FR.TEX", "hyph-fr.tex ", "tex", "*", "hyph-it.tex"}} \cup {o("supportedPatterns")}
    [] comp = "hyphenator" -> Texted({"hyphenate"}) \cup Stringed({"hyphenateString"}) \cup {o("dictionary")}
    [] comp = "lines" -> {[api |-> "setParagraph", t |-> Paragraphs[i], x |-> <<w>>] : i \in 1..Len(Paragraphs), w \in Widths}
    [] comp = "reader" -> {o("readRune"), o("unread")} \cup {[api |-> "seek", n |-> <<x, w>>] : x \in (-3..3) \cup {-1000000000, 1000000000}, w \in 0..2}
                          \cup {[api |-> x, n |-> n] : x \in {"slices", "byteSlices"}, n \in {<<>>} \cup {<<i>> : i \in 0..1} \cup {<<i, j>> : i \in -1..3, j \in -1..3} \cup {<<0, 0, i, i, 0>> : i \in 0..1} \cup {<<i, j, j, j>> : i \in 0..2, j \in 0..2}}
    [] comp = "writer" -> {[api |-> "writeRune", n |-> <<r>>] : r \in {97, 233, 8364, 128512, -1, 55296, 2147483647}} \cup {[api |-> "writeRunes", r |-> Texts[i]] : i \in {1, 2, 7, 9, 29}}
                          \cup {o("startOfLine"), o("endOfLine"), o("renderAll")}
    [] comp = "attributes" -> {o("push"), o("pushNil"), o("iterator"), o("first"), o("next"), o("item"), o("startOfLine"), o("endOfLine"), o("renderAll")}
                              \cup {[api |-> "setStop", r |-> Texts[i]] : i \in {1, 18}} \cup {[api |-> "setLevel", n |-> <<x>>] : x \in {-2147483647, 7}} \cup {o("newState")}
    [] comp = "trie" -> Texted({"get", "delete"}) \cup {[api |-> "put", r |-> Texts[i], n |-> <<1>>] : i \in 1..Len(Texts)}
    [] OTHER -> {}
\* attributes: the state of the session is the calls made so far, up to Depth of those that change something
Changes(op) == \/ comp = "attributes" /\ op.api \in {"newAttribute", "push", "iterator", "first", "next", "setStop", "newState"}
               \/ comp = "trie" /\ op.api \in {"put", "delete"} /\ Len(op.r) \in 1..2
Do(op, built) ==
  /\ a' = op /\ rets' = Ends(op, st)
  /\ st' = After(op, st, IF "value" \in rets' THEN "value" ELSE CHOOSE e \in rets' : TRUE)
  /\ hist' = IF built /\ comp # "attributes" THEN <<op>> ELSE IF Changes(op) THEN Append(hist, op) ELSE hist
  /\ UNCHANGED comp
Init == comp \in {"stateless", "hyphenator", "lines", "reader", "writer", "attributes", "trie"} /\ st = TInit /\ hist = <<>> /\ a = [api |-> "none"] /\ rets = {"value"}
Next == \/ Len(hist) < (IF comp \in {"attributes", "trie"} THEN Depth ELSE 1) /\ \E op \in Builds : Do(op, TRUE)
        \/ \E op \in Uses : (Changes(op) => Len(hist) < Depth) /\ Do(op, FALSE)
Spec == Init /\ [][Next]_vars
View == <<comp, st, hist>>
\* a call ends in a documented way, and panics only in the two calls that say so
Documented == rets # {} /\ rets \subseteq {"value", "eof", "range", "cannot", "error", "panic"} /\ ("panic" \in rets => a.api \in {"slices", "byteSlices"})
InRange == st.pos \in 0..Len(st.reader)
Emit == PrintT("@@" \o ToJson([s |-> <<comp, st, hist>>, a |-> a', t |-> <<comp', st', hist'>>, r |-> rets']))
====
