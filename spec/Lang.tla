---- MODULE Lang ----
(* Selection of a dictionary by a language tag (wordbreak/hyphenator/languages.go).
   A tag is a sequence of subtags: a language, then optionally a script, a region, variants, and extensions. *)
EXTENDS Integers, Sequences, FiniteSets

\* how a subtag may be written
Spell(s) == CASE s = "fr" -> {"fr", "FR", "Fr", "fra"} [] s = "de" -> {"de", "DE", "deu"} [] s = "es" -> {"es", "ES", "spa"}
              [] s = "en" -> {"en", "EN", "eng"} [] s = "GB" -> {"GB", "gb", "Gb", "UK"} [] s = "US" -> {"US", "us"}
              [] s = "CA" -> {"CA", "ca"} [] s = "MX" -> {"MX", "mx"} [] OTHER -> {s}
Supported == {"en", "fr", "de", "es"}
Unsupported == {"it", "pt", "ja", "zh", "ru", "ca", "nl", "sv", "fi", "pl", "cs", "tr", "ko", "vi", "hu", "el", "uk", "ro", "und", ""}
USTerritories == {"US", "PR", "GU", "AS", "VI", "UM", "MH", "MP"}
Commonwealth == {"GB", "AU", "NZ", "CA", "IN", "ZA", "SG", "MY", "KE", "NG", "JM", "PK", "GH", "BZ", "TT", "FJ", "MT", "CY", "BD", "LK", "ZM", "BW"}
Elsewhere == {"FR", "BE", "CH", "LU", "MC", "HT", "SN", "CI", "CD", "CM", "DE", "AT", "LI", "ES", "MX", "AR", "CO", "PE", "CL", "VE", "EC", "GT", "CU",
              "BO", "DO", "HN", "PY", "SV", "NI", "CR", "PA", "UY", "GQ", "BR", "IT", "PL", "DK", "NA", "TN", "MA", "DZ", "VU", "PF", "419", "150", "001", "003", "013"}
Regions == USTerritories \cup Commonwealth \cup Elsewhere

\* the dictionaries that a tag may select: one, unless it is an English with an unusual region
Select(lang, region) ==
  CASE lang \in {"fr", "de", "es"} -> {lang}
    [] lang = "en" -> IF region = "" \/ region \in USTerritories THEN {"us"} ELSE IF region \in Commonwealth THEN {"gb"} ELSE {"us", "gb"}
    [] lang \in Unsupported -> {"us"}
====
