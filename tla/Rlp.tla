--------------------------------- MODULE Rlp --------------------------------
(* Recursive length prefix encoding of byte strings and lists.  An item is
   [s |-> bytes] or [l |-> sequence of items]. *)
EXTENDS Integers, Sequences, Word
RlpLen(n, base) ==
  IF n <= 55 THEN <<base + n>>
  ELSE LET b == NInt(n) IN <<base + 55 + Len(b)>> \o b
RlpStr(b) ==
  IF Len(b) = 1 /\ b[1] < 128 THEN b ELSE RlpLen(Len(b), 128) \o b
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
\* a list of already encoded items
RlpList(encs) == LET p == Concat(encs) IN RlpLen(Len(p), 192) \o p
RlpNat(w) == RlpStr(NNorm(w))
RlpInt(i) == RlpStr(NInt(i))
=============================================================================
