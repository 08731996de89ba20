-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* The external forms of blocks and of what they are made of: which byte   *)
(* strings are a block, header, transaction, receipt or withdrawal of a    *)
(* fork, and what the tools build from and read in written descriptions.   *)
(*                                                                         *)
(* A tree is <<"s", bytes>> or <<"l", trees>>.  A shape says which trees   *)
(* are meant: a text of n bytes (or any), a number of at most n bytes      *)
(* without leading zeros (or of any size), a sequence of one shape, fixed  *)
(* fields, or either of two shapes.                                        *)
(***************************************************************************)
EXTENDS Chain

AnyText == [k |-> "any"]
Text(n) == [k |-> "text", n |-> n]
NatOf(n) == [k |-> "nat", n |-> n]
NatAny == [k |-> "nat", n |-> 100000]
Bit == [k |-> "flag"]
Many(s) == [k |-> "many", of |-> s]
Fixed(ss) == [k |-> "fixed", of |-> ss]
Either(a, b) == [k |-> "either", a |-> a, b |-> b]

RECURSIVE Shaped(_, _)
Shaped(s, t) ==
  CASE s.k = "any" -> t[1] = "s"
    [] s.k = "text" -> t[1] = "s" /\ Len(t[2]) = s.n
    [] s.k = "nat" -> t[1] = "s" /\ Len(t[2]) <= s.n /\ (t[2] # <<>> => t[2][1] # 0)
    [] s.k = "flag" -> t[1] = "s" /\ t[2] \in {<<>>, <<1>>}
    [] s.k = "many" -> t[1] = "l" /\ \A i \in 1..Len(t[2]) : Shaped(s.of, t[2][i])
    [] s.k = "fixed" -> /\ t[1] = "l" /\ Len(t[2]) = Len(s.of)
                        /\ \A i \in 1..Len(s.of) : Shaped(s.of[i], t[2][i])
    [] s.k = "either" -> Shaped(s.a, t) \/ Shaped(s.b, t)
RECURSIVE TreeRlp(_)
TreeRlp(t) == IF t[1] = "s" THEN RlpStr(t[2]) ELSE RlpList([i \in 1..Len(t[2]) |-> TreeRlp(t[2][i])])
----------------------------------------------------------------------------
Hash32 == Text(32)
To == Either(Text(0), Text(20))
HeaderShape(fk) ==
  Fixed(<<Hash32, Hash32, Text(20), Hash32, Hash32, Hash32, Text(256), NatAny, NatAny, NatAny, NatAny, NatOf(32), AnyText, Hash32, Text(8)>>
    \o (IF fk >= London THEN <<NatAny>> ELSE <<>>)
    \o (IF fk >= Shanghai THEN <<Hash32>> ELSE <<>>)
    \o (IF fk >= Cancun THEN <<NatOf(8), NatOf(8), Hash32>> ELSE <<>>)
    \o (IF fk >= Prague THEN <<Hash32>> ELSE <<>>))
Vrs == <<NatOf(32), NatOf(32), NatOf(32)>>
LegacyShape == Fixed(<<NatOf(32), NatAny, NatAny, To, NatOf(32), AnyText>> \o Vrs)
Accesses == Many(Fixed(<<Text(20), Many(Hash32)>>))
Auths == Many(Fixed(<<NatOf(32), Text(20), NatOf(8), NatOf(1), NatOf(32), NatOf(32)>>))
TypedShape(type) ==
  LET head == <<NatOf(8), NatOf(IF type = 4 THEN 8 ELSE 32)>>
      fees == IF type = 1 THEN <<NatAny>> ELSE <<NatAny, NatAny>>
      body == <<NatAny, IF type >= 3 THEN Text(20) ELSE To, NatOf(32), AnyText, Accesses>>
      more == IF type = 3 THEN <<NatOf(32), Many(Hash32)>> ELSE IF type = 4 THEN <<Auths>> ELSE <<>>
  IN Fixed(head \o fees \o body \o more \o Vrs)
\* in a block a typed transaction is a text of any content
TxShape(fk) == IF fk < Berlin THEN LegacyShape ELSE Either(AnyText, LegacyShape)
WithdrawalShape == Fixed(<<NatOf(8), NatOf(8), Text(20), NatOf(32)>>)
BlockShape(fk) ==
  Fixed(<<HeaderShape(fk), Many(TxShape(fk)), Many(HeaderShape(fk))>>
        \o (IF fk >= Shanghai THEN <<Many(WithdrawalShape)>> ELSE <<>>))
ReceiptShape(fk) ==
  Fixed(<<IF fk < Byzantium THEN Hash32 ELSE Bit, NatAny, Text(256), Many(Fixed(<<Text(20), Many(Hash32), AnyText>>))>>)

\* what a typed transaction or receipt is: its type, and the tree behind it
TypesOf(fk) == {t \in 1..4 : t < (IF fk >= Prague THEN 5 ELSE IF fk >= Cancun THEN 4 ELSE IF fk >= London THEN 3 ELSE IF fk >= Berlin THEN 2 ELSE 1)}
TypedTxOk(fk, type, t) == type \in TypesOf(fk) /\ Shaped(TypedShape(type), t)
ShapeOf(fk, what) ==
  CASE what = "block" -> BlockShape(fk)
    [] what = "header" -> HeaderShape(fk)
    [] what = "withdrawal" -> WithdrawalShape
    [] what = "transaction" -> LegacyShape
    [] what = "receipt" -> ReceiptShape(fk)
----------------------------------------------------------------------------
(* The block builder: fields that are not given have their defaults.       *)
BuiltHeader(h, given, ommersHash) ==
  LET g(f, x, d) == IF f \in given THEN x ELSE d
      fee == "baseFee" \in given \/ "wRoot" \in given
  IN RlpList(
       <<RlpStr(h.parent), RlpStr(g("ommersHash", h.ommersHash, ommersHash)), RlpStr(g("coinbase", h.coinbase, Zeros(20))), RlpStr(h.stateRoot),
         RlpStr(g("txRoot", h.txRoot, EmptyRoot)), RlpStr(g("receiptRoot", h.receiptRoot, EmptyRoot)), RlpStr(h.bloom),
         RlpNat(g("difficulty", h.difficulty, <<>>)), RlpNat(h.number), RlpNat(h.gasLimit), RlpNat(h.gasUsed), RlpNat(h.time),
         RlpStr(g("extra", h.extra, <<>>)), RlpStr(h.mix), RlpStr(g("nonce", h.nonce, Zeros(8)))>>
       \o (IF fee THEN <<RlpNat(g("baseFee", h.baseFee, <<>>))>> ELSE <<>>)
       \o (IF "wRoot" \in given THEN <<RlpStr(h.wRoot)>> ELSE <<>>))
BlockTx(t) == IF t.type = 0 THEN EncodeTx(t) ELSE RlpStr(EncodeTx(t))
BuiltBlock(h, given, txs, ommers, wds, hasWds) ==
  LET os == OmmersRlp(ommers)
      hd == BuiltHeader(h, given, Keccak(os))
  IN <<RlpList(<<hd, RlpList([i \in 1..Len(txs) |-> BlockTx(txs[i])]), os>>
               \o (IF hasWds THEN <<RlpList([i \in 1..Len(wds) |-> WithdrawalRlp(wds[i])])>> ELSE <<>>)),
       Keccak(hd)>>
\* a block as it is written down
BlockRlp(h, txs, ommers, wds) ==
  RlpList(<<HeaderRlp(h), RlpList([i \in 1..Len(txs) |-> BlockTx(txs[i])]), OmmersRlp(ommers)>>
          \o (IF h.fk >= Shanghai THEN <<RlpList([i \in 1..Len(wds) |-> WithdrawalRlp(wds[i])])>> ELSE <<>>))
----------------------------------------------------------------------------
(* The first block of a chain.                                             *)
GenesisHeader(fk, w, difficulty, extra, gasLimit, nonce, time) ==
  [fk |-> fk, parent |-> Zeros(32), ommersHash |-> NoOmmersHash, coinbase |-> Zeros(20), stateRoot |-> StateRoot(w),
   txRoot |-> EmptyRoot, receiptRoot |-> EmptyRoot, bloom |-> Zeros(256), difficulty |-> difficulty, number |-> <<>>,
   gasLimit |-> gasLimit, gasUsed |-> <<>>, time |-> time, extra |-> extra, mix |-> Zeros(32), nonce |-> nonce,
   baseFee |-> NInt(1000000000), wRoot |-> EmptyRoot, blobGas |-> <<>>, excess |-> <<>>, beaconRoot |-> Zeros(32),
   reqHash |-> RequestsHash(<<>>)]
\* a state read from a description has what the description says; from the merge on, no empty account
HasEmpty(w) == \E a \in DOMAIN w.a : w.a[a].n = <<>> /\ w.a[a].b = <<>> /\ w.a[a].c = <<>>
=============================================================================
