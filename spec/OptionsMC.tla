---- MODULE OptionsMC ----
(* All the lists of options, up to a length, and what they resolve to. *)
EXTENDS Options, TLC, Json
CONSTANTS Kind, MaxOpts, Names
Pool(kind) ==
  CASE kind = "lb" -> {Opt("tol", v) : v \in {"8.6", "2"}} \cup {Opt("wb", v) : v \in {"true", "false"}} \cup {Opt("hyph", v) : v \in {"default", "library", "every1"}}
                      \cup {Opt("punct", v) : v \in {"default", "library", "off"}} \cup {Opt("hpen", v) : v \in {"300", "0"}} \cup {Opt("render", v) : v \in {"true", "false"}}
                      \cup {Opt("scale", v) : v \in {"1", "3"}} \cup {Opt("meas", v) : v \in {"len", "two"}}
    [] kind = "hyph" -> {Opt("lang", v) : v \in {"en-US", "fr"}} \cup {Opt("tag", v) : v \in {"en-US", "de"}} \cup {Opt("len", v) : v \in {"4", "0", "9"}}
                        \cup {Opt("left", v) : v \in {"2", "0", "5"}} \cup {Opt("right", v) : v \in {"2", "0", "5"}}
    [] kind = "width" -> {Opt("ea", v) : v \in {"true", "false"}} \cup {Opt("skip", v) : v \in {"true", "false"}} \cup {Opt("amb", v) : v \in {"2", "1", "7"}}
VARIABLES opts, conf
vars == <<opts, conf>>
Init == opts = <<>> /\ conf = Defaults(Kind)
Next == /\ Len(opts) < MaxOpts
        /\ \E o \in {x \in Pool(Kind) : x.n \in Names} : opts' = Append(opts, o) /\ conf' = Apply(conf, o)
Spec == Init /\ [][Next]_vars
Resolved == conf = ConfOf(Kind, opts)
Ordered == LastWins(Kind, opts) /\ Commute(Kind, opts)
Documented == Effective(Kind, opts) /\ Untouched(Kind, opts)
Shortest == LET c == Canonical(Kind, conf) IN Len(c) <= Len(opts) /\ ConfOf(Kind, c) = conf
Emit == PrintT("@@" \o ToJson([opts |-> opts, canon |-> Canonical(Kind, conf)]))
====
