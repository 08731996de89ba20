------------------------------- MODULE Ethash -------------------------------
(***************************************************************************)
(* The proof of work.  32-bit numbers are 4 bytes, least significant       *)
(* first, as they lie in hashes; a line is 64 bytes (16 numbers); a cache  *)
(* is the concatenation of its lines.  The definitions are the meaning;    *)
(* TLC evaluates Fnv, FnvMix, EthashCache and DatasetItem with the class   *)
(* Ethash (java/Ethash.java); PureEthash.tla compares the two.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Word, Crypto

EpochLength == NInt(30000)
Epoch(number) == NDiv(number, EpochLength)

\* 46340 is the root of the largest integer here
IsPrime(n) == n > 1 /\ \A d \in 2..(IF n <= 46340 THEN n - 1 ELSE 46340) : (d * d > n) \/ (n % d # 0)
RECURSIVE PrimeBelow(_)
PrimeBelow(n) == IF IsPrime(n) THEN n ELSE PrimeBelow(n - 2)
\* lines of the cache and of the dataset (of 128 bytes) in an epoch
CacheLines(epoch) == PrimeBelow(262144 + 2048 * epoch - 1)
DataLines(epoch) == PrimeBelow(8388608 + 65536 * epoch - 1)
RECURSIVE EthashSeed(_)
EthashSeed(epoch) == IF epoch = 0 THEN Zeros(32) ELSE Keccak(EthashSeed(epoch - 1))

RECURSIVE Reverse(_)
Reverse(s) == IF s = <<>> THEN <<>> ELSE Append(Reverse(Tail(s)), s[1])
\* number k (from 0) of a byte string, and as a natural
Num(b, k) == SubSeq(b, 4 * k + 1, 4 * k + 4)
NumNat(x) == NNorm(Reverse(x))
NatNum(w) == Reverse(Pad(w, 4))
XorBytes(a, b) == [i \in 1..Len(a) |-> BitOp(3, a[i], b[i])]
FnvPrime == NInt(16777619)
Fnv(a, b) == XorBytes(NatNum(NMul(NumNat(a), FnvPrime)), b)
RECURSIVE FnvMix(_, _)
FnvMix(a, b) == IF a = <<>> THEN <<>>
                ELSE Fnv(SubSeq(a, 1, 4), SubSeq(b, 1, 4)) \o FnvMix(SubSeq(a, 5, Len(a)), SubSeq(b, 5, Len(b)))
Line(c, i) == SubSeq(c, 64 * i + 1, 64 * i + 64)
Lines(c) == Len(c) \div 64
NumMod(x, n) == NSat(NMod(NumNat(x), NInt(n)))

RECURSIVE HashChain(_, _)
HashChain(h, n) == IF n = 0 THEN <<>> ELSE h \o HashChain(Keccak512(h), n - 1)
MixLine(c, i) ==
  LET n == Lines(c)
      x == XorBytes(Line(c, (i - 1 + n) % n), Line(c, NumMod(Num(Line(c, i), 0), n)))
  IN Splice(c, 64 * i, Keccak512(x))
RECURSIVE MixLines(_, _)
MixLines(c, i) == IF i = Lines(c) THEN c ELSE MixLines(MixLine(c, i), i + 1)
EthashCache(lines, seed) ==
  MixLines(MixLines(MixLines(HashChain(Keccak512(seed), lines), 0), 0), 0)

RECURSIVE Parents(_, _, _, _)
Parents(c, index, j, mix) ==
  IF j = 256 THEN mix
  ELSE LET p == NumMod(Fnv(XorBytes(NatNum(NInt(index)), NatNum(NInt(j))), Num(mix, j % 16)), Lines(c))
       IN Parents(c, index, j + 1, FnvMix(mix, Line(c, p)))
DatasetItem(c, index) ==
  LET l == Line(c, index % Lines(c))
      first == XorBytes(Num(l, 0), NatNum(NInt(index))) \o SubSeq(l, 5, 64)
  IN Keccak512(Parents(c, index, 0, Keccak512(first)))

RECURSIVE Accesses(_, _, _, _, _)
Accesses(c, rows, seed, i, mix) ==
  IF i = 64 THEN mix
  ELSE LET p == NumMod(Fnv(XorBytes(NatNum(NInt(i)), Num(seed, 0)), Num(mix, i % 32)), rows)
       IN Accesses(c, rows, seed, i + 1, FnvMix(mix, DatasetItem(c, 2 * p) \o DatasetItem(c, 2 * p + 1)))
RECURSIVE Compress(_)
Compress(mix) == IF mix = <<>> THEN <<>>
                 ELSE Fnv(Fnv(Fnv(Num(mix, 0), Num(mix, 1)), Num(mix, 2)), Num(mix, 3)) \o Compress(SubSeq(mix, 17, Len(mix)))
\* <<mix digest, result>> for a dataset of that many bytes
Hashimoto(c, size, hash, nonce) ==
  LET seed == Keccak512(hash \o Reverse(nonce))
      mix == Compress(Accesses(c, size \div 128, seed, 0, seed \o seed))
  IN <<mix, Keccak(seed \o mix)>>
\* x: what Hashimoto gives for the header
ProofOk(x, mix, difficulty) == x[1] = mix /\ NLe(NNorm(x[2]), NDiv(TwoTo256, difficulty))
=============================================================================
