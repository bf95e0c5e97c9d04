---- MODULE LangMC ----
(* Writes a tag subtag by subtag. *)
EXTENDS Lang, TLC, Json
CONSTANTS Small   \* TRUE: fewer spellings
VARIABLES lang, region, tag, phase
vars == <<lang, region, tag, phase>>
Scripts(l) == IF l \in Supported THEN {"", "Latn"} ELSE {""}
Variants(l, r) == CASE l = "de" -> {"", "1996", "1901"} [] l = "en" /\ r \in {"", "GB"} -> {"", "oxendict"} [] OTHER -> {""}
Extensions(l) == IF l \in Supported THEN {"", "u-co-phonebk", "x-foo", "u-nu-latn-x-a-b", "t-it"} ELSE {"", "x-foo"}
Spelled(s) == IF Small THEN {s} ELSE Spell(s)
Add(s) == IF s = "" THEN tag ELSE IF tag = "" THEN s ELSE tag \o "-" \o s
Init == lang = "" /\ region = "" /\ tag = "" /\ phase = "language"
Language == phase = "language" /\ phase' = "script" /\ UNCHANGED region
            /\ \E l \in Supported \cup Unsupported : lang' = l /\ \E s \in Spelled(l) : tag' = Add(s)
Script == phase = "script" /\ lang # "" /\ phase' = "region" /\ UNCHANGED <<lang, region>> /\ \E s \in Scripts(lang) : tag' = Add(s)
Region == phase = "region" /\ phase' = "variant" /\ UNCHANGED lang
          /\ \E r \in {""} \cup (IF lang \in Supported THEN Regions ELSE {}) : region' = r /\ \E s \in Spelled(r) : tag' = Add(s)
Variant == phase = "variant" /\ phase' = "extension" /\ UNCHANGED <<lang, region>> /\ \E s \in Variants(lang, region) : tag' = Add(s)
Extension == phase = "extension" /\ phase' = "done" /\ UNCHANGED <<lang, region>> /\ \E s \in Extensions(lang) : tag' = Add(s)
Next == Language \/ Script \/ Region \/ Variant \/ Extension
Spec == Init /\ [][Next]_vars
\* the choice never depends on the script, the variants or the extensions, and a language that is supported is never replaced
Own == lang \in {"fr", "de", "es"} => Select(lang, region) = {lang}
Decided == lang # "en" => Cardinality(Select(lang, region)) = 1
English == lang = "en" => Select(lang, region) \subseteq {"us", "gb"}
Emit == phase' = "done" \/ (phase' = "script" /\ lang' = "") => PrintT("@@" \o ToJson([lang |-> lang', region |-> region', tag |-> tag']))
====
