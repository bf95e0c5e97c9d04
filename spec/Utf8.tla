---- MODULE Utf8 ----
(* UTF-8: sizes and encodings of runes. Runes are integers. *)
EXTENDS Integers, Sequences

IsSurrogate(r) == r >= 55296 /\ r <= 57343
ValidRune(r) == r >= 0 /\ r <= 1114111 /\ ~IsSurrogate(r)

\* number of bytes of a valid rune
RuneLen(r) == CASE r < 128 -> 1 [] r < 2048 -> 2 [] r < 65536 -> 3 [] OTHER -> 4

\* bytes of any rune: invalid ones are replaced by U+FFFD
EncodeValid(r) ==
  CASE r < 128 -> <<r>>
    [] r >= 128 /\ r < 2048 -> <<192 + (r \div 64), 128 + (r % 64)>>
    [] r >= 2048 /\ r < 65536 -> <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
    [] OTHER -> <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
Encode(r) == IF ValidRune(r) THEN EncodeValid(r) ELSE EncodeValid(65533)

RECURSIVE EncodeAll(_)
EncodeAll(s) == IF s = <<>> THEN <<>> ELSE Encode(Head(s)) \o EncodeAll(Tail(s))

RECURSIVE ByteLen(_)
ByteLen(s) == IF s = <<>> THEN 0 ELSE RuneLen(Head(s)) + ByteLen(Tail(s))

\* ByteOffsets(s)[i+1]: the byte offset of the i-th rune, and of the end
RECURSIVE Offsets(_, _)
Offsets(s, from) == IF s = <<>> THEN <<from>> ELSE <<from>> \o Offsets(Tail(s), from + RuneLen(Head(s)))
ByteOffsets(s) == Offsets(s, 0)
====
