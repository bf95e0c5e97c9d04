---- MODULE Immut ----
(* What the operations of the library do to memory. Arrays hold runes; slices are windows [array, lo, hi] of an array, and
   the array goes on after hi. Array 1 is the buffer of the caller. An operation reads a window and returns slices: windows
   of its input, or of new arrays. It never writes in an array that exists: this is the frame condition below.

   An observer sees the contents of the buffer, and of the slices returned so far. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES arrays, returned
ivars == <<arrays, returned>>
Window(a, lo, hi) == [array |-> a, lo |-> lo, hi |-> hi]
Contents(w) == SubSeq(arrays[w.array], w.lo + 1, w.hi)
IInit(buffer) == arrays = <<buffer>> /\ returned = <<>>
\* the operation returns some contents: where they are in memory is left open, so new arrays stand for them
Return(new) ==
  /\ arrays' = arrays \o new
  /\ returned' = returned \o [i \in 1..Len(new) |-> Window(Len(arrays) + i, 0, Len(new[i]))]
\* or windows of its input
ReturnWindows(ws) == arrays' = arrays /\ returned' = returned \o ws
Frame == [][\A i \in 1..Len(arrays) : arrays'[i] = arrays[i]]_ivars
Buffer == arrays[1]
Seen == [i \in 1..Len(returned) |-> Contents(returned[i])]
====
