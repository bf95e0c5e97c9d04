---- MODULE ImmutMC ----
(* Sequences of operations applied to windows of a buffer, or to a result of the previous operation. *)
EXTENDS Immut, TLC, Json
CONSTANTS Apis, MaxOps, Windows, Args, BufferLength, Appends
VARIABLE ops
vars == <<ivars, ops>>
Init == IInit([i \in 1..BufferLength |-> i]) /\ ops = <<>>
Halves(w) == LET m == (w.lo + w.hi) \div 2 IN <<Window(w.array, w.lo, m), Window(w.array, m, w.hi)>>
\* what a careless implementation would do: append to a window in place
AppendInPlace(w) == w.hi < Len(arrays[w.array]) /\ arrays' = [arrays EXCEPT ![w.array][w.hi + 1] = 0] /\ UNCHANGED returned
On(w) == ReturnWindows(Halves(w)) \/ (Appends /\ AppendInPlace(w))
Next ==
  /\ Len(ops) < MaxOps
  /\ \E api \in Apis : \E arg \in Args :
       \/ \E w \in Windows : /\ On(Window(1, (w * BufferLength) \div 8, BufferLength - w)) /\ ops' = Append(ops, [api |-> api, w |-> w, arg |-> arg, prev |-> -1])
       \/ returned # <<>> /\ On(returned[Len(returned)]) /\ ops' = Append(ops, [api |-> api, w |-> 0, arg |-> arg, prev |-> arg])
Spec == Init /\ [][Next]_vars
Unchanged == Buffer = [i \in 1..BufferLength |-> i]
Halved == \A i \in 1..Len(returned) : returned[i].lo <= returned[i].hi
Emit == Len(ops) = MaxOps => PrintT("@@" \o ToJson(ops))
====
