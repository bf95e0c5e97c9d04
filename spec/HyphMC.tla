---- MODULE HyphMC ----
(* The hyphenator as a state machine that scans a word, for small dictionaries, words and settings.
   It merges the values of the patterns that start at each position, then retains breaks. *)
EXTENDS Hyph, TLC, Json, IOUtils
CONSTANTS Alphabet, MaxLen, Configs   \* Configs: set of numbers with the digits minLen, left, right
Dicts == ndJsonDeserialize(IOEnv.VF_DICTS)
VARIABLES d, word, c, at, values, prev, breaks, phase
vars == <<d, word, c, at, values, prev, breaks, phase>>
Words == UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
N == Len(word)
Hyphen == \E i \in 1..N : word[i] = Dash
Dotted == <<Dot>> \o word \o <<Dot>>
Init ==
  /\ d \in 1..Len(Dicts) /\ word \in Words /\ c \in {[minLen |-> x \div 100, left |-> (x \div 10) % 10, right |-> x % 10] : x \in Configs}
  /\ at = 0 /\ values = [k \in 0..(N + 2) |-> 0] /\ prev = 0 /\ breaks = <<>>
  /\ phase = "begin"
Stay == UNCHANGED <<d, word, c>>
Begin ==
  /\ phase = "begin" /\ Stay /\ UNCHANGED <<at, prev, breaks>>
  /\ IF Kept(Hyphen, N, c) THEN phase' = "done" /\ UNCHANGED values
     ELSE IF IsException(Dicts[d], word)
     THEN /\ phase' = "cut"
          /\ values' = [k \in DOMAIN values |-> IF k \in 1..(N - 1) /\ k \in Odd(Dicts[d], word) THEN 1 ELSE 0]
     ELSE phase' = "merge" /\ UNCHANGED values
\* merge the values of one pattern position; gap k is after k runes of the word, that is k + 1 runes of the dotted word
Merge ==
  /\ phase = "merge" /\ Stay /\ UNCHANGED <<prev, breaks>>
  /\ IF at = N + 2 THEN phase' = "cut" /\ at' = 0 /\ UNCHANGED values
     ELSE /\ at' = at + 1 /\ UNCHANGED phase
          /\ LET hits == Grow(Dicts[d], Dotted, at + 1, at + 1, 0)
             IN values' = [k \in DOMAIN values |->
                  LET here == {h \in hits : (k + 2 - at) \in 1..Len(h[2])}
                      m == Max0({h[2][k + 2 - at] : h \in here})
                  IN IF m > values[k] THEN m ELSE values[k]]
Cut ==
  /\ phase = "cut" /\ Stay /\ UNCHANGED values
  /\ LET k == at + 1 IN
     IF k >= N THEN phase' = "done" /\ UNCHANGED <<at, prev, breaks>>
     ELSE /\ at' = k /\ UNCHANGED phase
          /\ IF values[k] % 2 = 1 /\ Retained(k, prev, N, c)
             THEN breaks' = Append(breaks, k) /\ prev' = k
             ELSE UNCHANGED <<breaks, prev>>
Next == Begin \/ Merge \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(phase = "done")
DesignLegal == phase = "done" => Legal(word, Hyphen, c, Parts(word, breaks))
DesignExact == phase = "done" => breaks = Breaks(Dicts[d], word, Hyphen, c)
\* merging never lowers a value, and a break respects the limits as soon as it is retained
BreaksIncrease == \A i \in 1..Len(breaks) : breaks[i] \in 1..(N - 1) /\ (i > 1 => breaks[i - 1] < breaks[i])
Monotonic == [][\A k \in 0..(N + 2) : values'[k] >= values[k]]_vars
Emit == phase = "begin" => PrintT("@@" \o ToJson([d |-> d, w |-> word, c |-> c]))
====
