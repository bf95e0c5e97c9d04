---- MODULE Shared ----
(* What a user sees of the cache of dictionaries: a language file has one dictionary, for good, and no other file has it. *)
EXTENDS Integers, FiniteSets
VARIABLE tab
SInit == tab = {}
MayGet(file, dict) == \A x \in tab : x.file = file <=> x.dict = dict
Get(file, dict) == MayGet(file, dict) /\ tab' = tab \cup {[file |-> file, dict |-> dict]}
====
