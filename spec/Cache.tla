---- MODULE Cache ----
(* Concurrent creation and use of hyphenators, and of the table of widths.

   A goroutine that makes a hyphenator takes a mutex, looks for the dictionary of the language in a table, loads it in
   several steps if it is not there, puts it in the table, and releases the mutex. It then reads the dictionary without
   any lock. The table of widths is built in several steps under a sync.Once.
   writes holds the shared places being written now, so that data races are visible in a state. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Langs, Chunks
VARIABLES pc,       \* what each goroutine does
          lang,     \* the language it asks for
          got,      \* the dictionary it has
          mutex,    \* the goroutine that holds the mutex, or none
          table,    \* language -> dictionary, or none
          dicts,    \* dictionary -> number of chunks loaded
          once,     \* "new", a goroutine, or "done"
          widths    \* number of chunks built in the table of widths
cvars == <<pc, lang, got, mutex, table, dicts, once, widths>>
None == 0
CInit ==
  /\ pc = [p \in Procs |-> "idle"] /\ lang = [p \in Procs |-> None] /\ got = [p \in Procs |-> None]
  /\ mutex = None /\ table = [x \in Langs |-> None] /\ dicts = <<>> /\ once = "new" /\ widths = 0

Ask(p, x) == /\ pc[p] = "idle" /\ pc' = [pc EXCEPT ![p] = "lock"] /\ lang' = [lang EXCEPT ![p] = x] /\ got' = [got EXCEPT ![p] = None]
             /\ UNCHANGED <<mutex, table, dicts, once, widths>>
Lock(p) == /\ pc[p] = "lock" /\ mutex = None /\ mutex' = p /\ pc' = [pc EXCEPT ![p] = "look"]
           /\ UNCHANGED <<lang, got, table, dicts, once, widths>>
Look(p) == /\ pc[p] = "look"
           /\ IF table[lang[p]] # None THEN got' = [got EXCEPT ![p] = table[lang[p]]] /\ pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED dicts
              ELSE dicts' = Append(dicts, 0) /\ got' = [got EXCEPT ![p] = Len(dicts')] /\ pc' = [pc EXCEPT ![p] = "load"]
           /\ UNCHANGED <<lang, mutex, table, once, widths>>
Load(p) == /\ pc[p] = "load" /\ dicts[got[p]] < Chunks /\ dicts' = [dicts EXCEPT ![got[p]] = @ + 1]
           /\ UNCHANGED <<pc, lang, got, mutex, table, once, widths>>
Publish(p) == /\ pc[p] = "load" /\ dicts[got[p]] = Chunks /\ table' = [table EXCEPT ![lang[p]] = got[p]] /\ pc' = [pc EXCEPT ![p] = "unlock"]
              /\ UNCHANGED <<lang, got, mutex, dicts, once, widths>>
Unlock(p) == /\ pc[p] = "unlock" /\ mutex' = None /\ pc' = [pc EXCEPT ![p] = "use"]
             /\ UNCHANGED <<lang, got, table, dicts, once, widths>>
Use(p) == /\ pc[p] = "use" /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ UNCHANGED <<lang, got, mutex, table, dicts, once, widths>>
Measure(p) == /\ pc[p] = "idle"
              /\ CASE once = "new" -> once' = "busy" /\ pc' = [pc EXCEPT ![p] = "build"]
                   [] once = "done" -> pc' = [pc EXCEPT ![p] = "widths"] /\ UNCHANGED once
                   [] OTHER -> FALSE   \* waits
              /\ UNCHANGED <<lang, got, mutex, table, dicts, widths>>
Build(p) == /\ pc[p] = "build"
            /\ IF widths < Chunks THEN widths' = widths + 1 /\ UNCHANGED <<pc, once>>
               ELSE once' = "done" /\ pc' = [pc EXCEPT ![p] = "widths"] /\ UNCHANGED widths
            /\ UNCHANGED <<lang, got, mutex, table, dicts>>
Measured(p) == /\ pc[p] = "widths" /\ pc' = [pc EXCEPT ![p] = "idle"]
               /\ UNCHANGED <<lang, got, mutex, table, dicts, once, widths>>
CNext == \E p \in Procs : (\E x \in Langs : Ask(p, x)) \/ Lock(p) \/ Look(p) \/ Load(p) \/ Publish(p) \/ Unlock(p) \/ Use(p)
                          \/ Measure(p) \/ Build(p) \/ Measured(p)

Using(p) == pc[p] = "use"
OneDictionary == \A p, q \in Procs : Using(p) /\ Using(q) => (lang[p] = lang[q] <=> got[p] = got[q])
Loaded == \A p \in Procs : (Using(p) => dicts[got[p]] = Chunks) /\ (pc[p] = "widths" => widths = Chunks)
Forever == [][\A x \in Langs : table[x] # None => table'[x] = table[x]]_cvars
\* places read or written by the next step of a goroutine
Writes(p) == CASE pc[p] = "load" -> {<<"dict", got[p]>>, <<"table", 0>>} [] pc[p] = "build" -> {<<"widths", 0>>} [] OTHER -> {}
Reads(p) == CASE pc[p] = "look" -> {<<"table", 0>>} [] pc[p] = "use" -> {<<"dict", got[p]>>} [] pc[p] = "widths" -> {<<"widths", 0>>} [] OTHER -> {}
NoRace == \A p, q \in Procs : p # q => Writes(p) \cap (Writes(q) \cup Reads(q)) = {}
====
