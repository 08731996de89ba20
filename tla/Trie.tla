--------------------------------- MODULE Trie -------------------------------
(***************************************************************************)
(* Commitments: the root of the hexary Merkle Patricia trie of a finite    *)
(* map, the state root, transaction/receipt/withdrawal roots, blooms.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Word, Rlp, Crypto, Tx

Nibbles(b) == [i \in 1..2*Len(b) |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16
                                      ELSE b[i \div 2] % 16]
\* hex prefix encoding of a nibble path
HexPrefix(x, leaf) ==
  LET odd == Len(x) % 2
      flag == 16 * ((IF leaf THEN 2 ELSE 0) + odd)
      first == IF odd = 1 THEN flag + x[1] ELSE flag
      y == SubSeq(x, 1 + odd, Len(x))
  IN <<first>> \o [i \in 1..(Len(y) \div 2) |-> 16 * y[2*i - 1] + y[2*i]]

Ref(enc) == IF Len(enc) < 32 THEN enc ELSE RlpStr(Keccak(enc))

\* length of the common prefix of the paths in S after the first d nibbles
RECURSIVE Common(_, _)
Common(S, d) ==
  LET p == (CHOOSE x \in S : TRUE)[1]
  IN IF \A x \in S : Len(x[1]) > d /\ x[1][d + 1] = p[d + 1] THEN 1 + Common(S, d + 1) ELSE 0

\* encoding of the node that holds the pairs S below a path of d nibbles
RECURSIVE Node(_, _)
Node(S, d) ==
  IF S = {} THEN RlpStr(<<>>)
  ELSE LET p == CHOOSE x \in S : TRUE
       IN IF Cardinality(S) = 1
          THEN RlpList(<<RlpStr(HexPrefix(SubSeq(p[1], d + 1, Len(p[1])), TRUE)), RlpStr(p[2])>>)
          ELSE LET c == Common(S, d)
               IN IF c > 0
                  THEN RlpList(<<RlpStr(HexPrefix(SubSeq(p[1], d + 1, d + c), FALSE)), Ref(Node(S, d + c))>>)
                  ELSE LET here == {x \in S : Len(x[1]) = d}
                           sub(n) == {x \in S : Len(x[1]) > d /\ x[1][d + 1] = n}
                       IN RlpList([n \in 1..17 |->
                            IF n <= 16 THEN Ref(Node(sub(n - 1), d + 1))
                            ELSE RlpStr(IF here = {} THEN <<>> ELSE (CHOOSE x \in here : TRUE)[2])])

\* root of the map from byte strings to (non-empty) byte strings
Root(f) == Keccak(Node({<<Nibbles(k), f[k]>> : k \in DOMAIN f}, 0))
SecureRoot(f) == Keccak(Node({<<Nibbles(Keccak(k)), f[k]>> : k \in DOMAIN f}, 0))
\* root of a list, indexed by the encoding of the 0-based position
ListRoot(s) == Keccak(Node({<<Nibbles(RlpInt(i - 1)), s[i]>> : i \in 1..Len(s)}, 0))

EmptyRoot == Keccak(RlpStr(<<>>))
StorageRoot(w, a) ==
  IF a \notin DOMAIN w.s THEN EmptyRoot
  ELSE LET f == w.s[a]
       IN Keccak(Node({<<Nibbles(Keccak(Pad(k, 32))), RlpNat(f[k])>> : k \in DOMAIN f}, 0))
AccountRlp(w, a) ==
  LET r == w.a[a]
  IN RlpList(<<RlpNat(r.n), RlpNat(r.b), RlpStr(StorageRoot(w, a)), RlpStr(Keccak(r.c))>>)
StateRoot(w) == SecureRoot([a \in DOMAIN w.a |-> AccountRlp(w, a)])

----------------------------------------------------------------------------
(* Receipts *)
BloomBits(b) == LET h == Keccak(b) IN {(h[2*i + 1] * 256 + h[2*i + 2]) % 2048 : i \in 0..2}
Bloom(logs) ==
  LET bits == UNION {BloomBits(logs[i].a) \cup UNION {BloomBits(logs[i].t[j]) : j \in 1..Len(logs[i].t)}
                     : i \in 1..Len(logs)}
      bit(n) == IF n \in bits THEN 1 ELSE 0
  IN [j \in 1..256 |-> LET n == 2047 - 8 * (j - 1)   \* highest bit of byte j
                       IN 128 * bit(n) + 64 * bit(n-1) + 32 * bit(n-2) + 16 * bit(n-3)
                          + 8 * bit(n-4) + 4 * bit(n-5) + 2 * bit(n-6) + bit(n-7)]
LogRlp(l) == RlpList(<<RlpStr(l.a), RlpList([j \in 1..Len(l.t) |-> RlpStr(l.t[j])]), RlpStr(l.d)>>)
\* r: [type, ok, cum, logs, w]
ReceiptRlp(fk, r) ==
  LET head == IF fk < Byzantium THEN RlpStr(StateRoot(r.w)) ELSE RlpStr(IF r.ok THEN <<1>> ELSE <<>>)
      body == RlpList(<<head, RlpInt(r.cum), RlpStr(Bloom(r.logs)),
                        RlpList([i \in 1..Len(r.logs) |-> LogRlp(r.logs[i])])>>)
  IN IF r.type = 0 THEN body ELSE <<r.type>> \o body
WithdrawalRlp(wd) == RlpList(<<RlpNat(wd.index), RlpNat(wd.validator), RlpStr(wd.addr), RlpNat(wd.amount)>>)
RequestsHash(rs) == Sha256(Concat([i \in 1..Len(rs) |-> Sha256(rs[i])]))
=============================================================================
