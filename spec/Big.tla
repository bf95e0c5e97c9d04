---- MODULE Big ----
(* Natural numbers of any size: sequences of digits in base 10000, lowest first, without leading zeros (zero is <<>>). *)
EXTENDS Integers, Sequences
LOCAL B == 10000
RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromInt(n \div B)
LOCAL At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == At(a, i) + At(b, i) + carry IN <<s % B>> \o AddFrom(a, b, i + 1, s \div B)
Add(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE Digit(_, _, _, _)
Digit(a, b, k, i) ==  \* sum of a[i] * b[k + 1 - i]
  IF i > Len(a) \/ i > k THEN 0 ELSE (IF k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) + Digit(a, b, k, i + 1)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, carry) ==
  IF k >= Len(a) + Len(b) THEN (IF carry = 0 THEN <<>> ELSE FromInt(carry))
  ELSE LET s == Digit(a, b, k, 1) + carry IN <<s % B>> \o MulFrom(a, b, k + 1, s \div B)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MulFrom(a, b, 1, 0)
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LeqFrom(a, b, Len(a))
Min(a, b) == IF Leq(a, b) THEN a ELSE b
====
