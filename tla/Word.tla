-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* Unbounded naturals and 256-bit words as byte sequences (big endian,     *)
(* normalised: no leading zero byte; zero is <<>>), and byte strings.      *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, so every balance, storage value,       *)
(* stack item and hash of the specification is such a sequence.  The       *)
(* definitions below are the meaning of the operators; for speed TLC       *)
(* evaluates most of them with the class Word (java/Word.java, a thin      *)
(* layer over java.math.BigInteger); WordTest.tla compares the two.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsByteSeq(b) == \A i \in 1..Len(b) : b[i] \in 0..255

RECURSIVE NNorm(_)
NNorm(b) == IF b = <<>> THEN b ELSE IF b[1] = 0 THEN NNorm(Tail(b)) ELSE b

RepByte(x, n) == [i \in 1..n |-> x]
Zeros(n) == RepByte(0, n)

\* left pad with zeros to n bytes (or keep the n least significant bytes)
Pad(b, n) == IF Len(b) >= n THEN SubSeq(b, Len(b) - n + 1, Len(b))
             ELSE Zeros(n - Len(b)) \o b

\* conversion of small integers
RECURSIVE NInt(_)
NInt(i) == IF i = 0 THEN <<>> ELSE Append(NInt(i \div 256), i % 256)

\* saturating conversion to a TLC integer
MaxInt == 1073741823        \* 2^30 - 1
RECURSIVE NToIntS(_)
NToIntS(b) == IF b = <<>> THEN 0
              ELSE NToIntS(SubSeq(b, 1, Len(b)-1)) * 256 + b[Len(b)]
NSat(b) == IF Len(b) > 4 THEN MaxInt
           ELSE IF Len(b) = 4 /\ b[1] > 63 THEN MaxInt
           ELSE NToIntS(b)
NFits(b) == Len(b) < 4 \/ (Len(b) = 4 /\ b[1] <= 63)

RECURSIVE NCmpS(_, _)
NCmpS(a, b) == IF a = <<>> THEN 0
               ELSE IF a[1] < b[1] THEN -1
               ELSE IF a[1] > b[1] THEN 1
               ELSE NCmpS(Tail(a), Tail(b))
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpS(a, b)
NLt(a, b) == NCmp(a, b) < 0
NLe(a, b) == NCmp(a, b) <= 0
NMin(a, b) == IF NLe(a, b) THEN a ELSE b
NMax(a, b) == IF NLe(a, b) THEN b ELSE a

MaxOf(x, y) == IF x > y THEN x ELSE y
MinOf(x, y) == IF x < y THEN x ELSE y

RECURSIVE NAddC(_, _, _)
NAddC(a, b, c) ==      \* equal lengths, carry in; result may be longer
  IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET n == Len(a)
           s == a[n] + b[n] + c
       IN Append(NAddC(SubSeq(a, 1, n-1), SubSeq(b, 1, n-1), s \div 256), s % 256)
NAdd(a, b) == LET n == MaxOf(Len(a), Len(b)) IN NAddC(Pad(a, n), Pad(b, n), 0)

RECURSIVE NSubC(_, _, _)
NSubC(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET n == Len(a)
           s == a[n] - b[n] - c
       IN Append(NSubC(SubSeq(a, 1, n-1), SubSeq(b, 1, n-1), IF s < 0 THEN 1 ELSE 0),
                 IF s < 0 THEN s + 256 ELSE s)
\* a - b, for a >= b
NSub(a, b) == NNorm(NSubC(a, Pad(b, Len(a)), 0))

RECURSIVE NMulB(_, _, _)
NMulB(a, d, c) == IF a = <<>> THEN NInt(c)
                  ELSE LET n == Len(a)
                           s == a[n] * d + c
                           r == NMulB(SubSeq(a, 1, n-1), d, s \div 256)
                       IN Append(r, s % 256)
RECURSIVE NMul(_, _)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE LET n == Len(b)
                       hi == NMul(a, SubSeq(b, 1, n-1))
                   IN NAdd(IF hi = <<>> THEN <<>> ELSE Append(hi, 0), NNorm(NMulB(a, b[n], 0)))

\* long division, most significant byte first: <<quotient, remainder>>
NDigit(r, d) == CHOOSE q \in 0..255 :
                   /\ NLe(NMul(NInt(q), d), r)
                   /\ NLt(r, NMul(NInt(q + 1), d))
RECURSIVE NDivModS(_, _)
NDivModS(a, d) ==
  IF a = <<>> THEN <<<<>>, <<>>>>
  ELSE LET p == NDivModS(SubSeq(a, 1, Len(a)-1), d)
           r == NNorm(Append(p[2], a[Len(a)]))
           q == NDigit(r, d)
       IN <<NNorm(Append(p[1], q)), NSub(r, NMul(NInt(q), d))>>
NDiv(a, d) == NDivModS(a, d)[1]      \* d # <<>>
NMod(a, d) == NDivModS(a, d)[2]

RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN <<1>> ELSE NMul(a, NPow(a, k - 1))

\* number of significant bits
RECURSIVE IntBits(_)
IntBits(i) == IF i = 0 THEN 0 ELSE 1 + IntBits(i \div 2)
NBits(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + IntBits(a[1])

----------------------------------------------------------------------------
(* 256-bit words *)
TwoTo256 == <<1>> \o Zeros(32)
WMax == RepByte(255, 32)
Trunc(a) == IF Len(a) <= 32 THEN a ELSE NNorm(SubSeq(a, Len(a) - 31, Len(a)))
IsWord(a) == Len(a) <= 32 /\ a = NNorm(a)
WNeg(a) == Len(a) = 32 /\ a[1] >= 128              \* sign bit
WNegate(a) == IF a = <<>> THEN <<>> ELSE NSub(TwoTo256, a)
WAbs(a) == IF WNeg(a) THEN WNegate(a) ELSE a

WAdd(a, b) == Trunc(NAdd(a, b))
WSub(a, b) == IF NLe(b, a) THEN NSub(a, b) ELSE NSub(NAdd(a, TwoTo256), b)
WMul(a, b) == Trunc(NMul(a, b))
WDiv(a, b) == IF b = <<>> THEN <<>> ELSE NDiv(a, b)
WMod(a, b) == IF b = <<>> THEN <<>> ELSE NMod(a, b)
WSDiv(a, b) == IF b = <<>> THEN <<>>
               ELSE LET q == NDiv(WAbs(a), WAbs(b))
                    IN IF WNeg(a) # WNeg(b) THEN WNegate(q) ELSE Trunc(q)
WSMod(a, b) == IF b = <<>> THEN <<>>
               ELSE LET r == NMod(WAbs(a), WAbs(b))
                    IN IF WNeg(a) THEN WNegate(r) ELSE r
WAddMod(a, b, n) == IF n = <<>> THEN <<>> ELSE NMod(NAdd(a, b), n)
WMulMod(a, b, n) == IF n = <<>> THEN <<>> ELSE NMod(NMul(a, b), n)
RECURSIVE WExpS(_, _)
WExpS(a, bits) == IF bits = <<>> THEN <<1>>
                  ELSE LET h == WExpS(a, SubSeq(bits, 1, Len(bits) - 1))
                           q == WMul(h, h)
                       IN IF bits[Len(bits)] = 1 THEN WMul(q, a) ELSE q
ByteBits(x) == <<x \div 128, (x \div 64) % 2, (x \div 32) % 2, (x \div 16) % 2,
                 (x \div 8) % 2, (x \div 4) % 2, (x \div 2) % 2, x % 2>>
RECURSIVE BitsOf(_)
BitsOf(b) == IF b = <<>> THEN <<>> ELSE ByteBits(b[1]) \o BitsOf(Tail(b))
RECURSIVE FromBits(_)
FromBits(s) == IF s = <<>> THEN <<>>
               ELSE <<128*s[1] + 64*s[2] + 32*s[3] + 16*s[4] + 8*s[5] + 4*s[6] + 2*s[7] + s[8]>>
                    \o FromBits(SubSeq(s, 9, Len(s)))
WExp(a, e) == WExpS(a, BitsOf(e))
\* extend the sign of the byte number k (0 is the least significant)
WSignExtend(k, a) ==
  IF NLt(<<30>>, k) THEN a
  ELSE LET n == NSat(k) + 1
           low == Pad(a, n)
       IN IF low[1] >= 128 THEN RepByte(255, 32 - n) \o low ELSE NNorm(low)
WLt(a, b) == NLt(a, b)
WSLt(a, b) == IF WNeg(a) # WNeg(b) THEN WNeg(a) ELSE NLt(a, b)
Flag(p) == IF p THEN <<1>> ELSE <<>>

RECURSIVE BitOp(_, _, _)
BitOp(k, x, y) ==       \* k = 1: and, 2: or, 3: xor, on integers 0..255
  IF x = 0 /\ y = 0 THEN 0
  ELSE LET u == x % 2
           v == y % 2
           w == CASE k = 1 -> u * v
                  [] k = 2 -> IF u + v > 0 THEN 1 ELSE 0
                  [] k = 3 -> (u + v) % 2
       IN w + 2 * BitOp(k, x \div 2, y \div 2)
WBit(k, a, b) == LET x == Pad(a, 32)
                     y == Pad(b, 32)
                 IN NNorm([i \in 1..32 |-> BitOp(k, x[i], y[i])])
WAnd(a, b) == WBit(1, a, b)
WOr(a, b) == WBit(2, a, b)
WXor(a, b) == WBit(3, a, b)
WNot(a) == NSub(WMax, a)
WByte(i, a) == IF NLe(<<32>>, i) THEN <<>> ELSE NNorm(<<Pad(a, 32)[NSat(i) + 1]>>)
\* shifts by s, a word
WShl(s, a) == IF NLe(<<1, 0>>, s) THEN <<>>
              ELSE LET k == NSat(s)
                       bits == BitsOf(Pad(a, 32))
                   IN NNorm(FromBits(SubSeq(bits, k + 1, 256) \o Zeros(k)))
WShr(s, a) == IF NLe(<<1, 0>>, s) THEN <<>>
              ELSE LET k == NSat(s)
                       bits == BitsOf(Pad(a, 32))
                   IN NNorm(FromBits(Zeros(k) \o SubSeq(bits, 1, 256 - k)))
WSar(s, a) == IF ~WNeg(a) THEN WShr(s, a)
              ELSE IF NLe(<<1, 0>>, s) THEN WMax
              ELSE LET k == NSat(s)
                       bits == BitsOf(Pad(a, 32))
                   IN FromBits(RepByte(1, k) \o SubSeq(bits, 1, 256 - k))
WClz(a) == NInt(256 - NBits(a))

----------------------------------------------------------------------------
(* Byte strings *)
\* n bytes of data from offset off (0-based), zero past the end
Slice(data, off, n) ==
  [i \in 1..n |-> IF off + i <= Len(data) THEN data[off + i] ELSE 0]
\* same, with a word as offset
SliceW(data, off, n) ==
  IF NFits(off) THEN Slice(data, NSat(off), n) ELSE Zeros(n)
\* overwrite mem at off (mem is long enough)
Splice(mem, off, bytes) ==
  [i \in 1..Len(mem) |-> IF i > off /\ i <= off + Len(bytes) THEN bytes[i - off] ELSE mem[i]]

Ceil32(n) == ((n + 31) \div 32) * 32
Words(n) == (n + 31) \div 32
CountZeros(b) == Len(SelectSeq(b, LAMBDA x : x = 0))

\* replace the value of a function at one point, or add the point
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* remove a point
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* 1-based positions of JUMPDEST bytes that are not push data
RECURSIVE IsDest(_, _, _)
IsDest(code, i, pos) ==   \* scanning from 0-based i
  IF i > pos \/ i >= Len(code) THEN FALSE
  ELSE LET op == code[i + 1]
       IN IF i = pos THEN op = 91
          ELSE IsDest(code, i + 1 + (IF op >= 96 /\ op <= 127 THEN op - 95 ELSE 0), pos)
JumpDest(code, pos) == IsDest(code, 0, pos)

\* hexadecimal notation of a byte string, for messages
HexDigit(x) == SubSeq("0123456789abcdef", x + 1, x + 1)
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> THEN "" ELSE HexDigit(b[1] \div 16) \o HexDigit(b[1] % 16) \o Hex(Tail(b))
\* the byte string written as an even number of hexadecimal digits
HexVal(s, i) == CHOOSE x \in 0..15 : HexDigit(x) = SubSeq(s, i, i)
UnHex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s, 2*i - 1) + HexVal(s, 2*i)]

\* a sequence of <<key, value>> pairs as a function
MapOf(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]]

\* words written out on 32 bytes each, one after the other
RECURSIVE JoinWords(_)
JoinWords(s) == IF s = <<>> THEN <<>> ELSE Pad(Head(s), 32) \o JoinWords(Tail(s))
=============================================================================
