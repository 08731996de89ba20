---------------------------------- MODULE Tx --------------------------------
(***************************************************************************)
(* Transactions: encoding, signing hashes, recovery of the sender,         *)
(* intrinsic gas, static validity.                                         *)
(*                                                                         *)
(* A transaction t has: type 0..4; chainId, nonce, gasPrice, maxPrio,      *)
(* maxFee, gas, value, blobFee, v, r, s (naturals as byte sequences; v is  *)
(* the y parity for types 1 to 4); to (<<>> for creation or 20 bytes);     *)
(* data; access: sequence of <<address, sequence of 32-byte slots>>;       *)
(* blobs: sequence of 32-byte hashes; auths: sequence of [chainId, addr,   *)
(* nonce, v, r, s].                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Word, Rlp, Crypto, Forks

RlpAccess(al) ==
  RlpList([i \in 1..Len(al) |->
     RlpList(<<RlpStr(al[i][1]), RlpList([j \in 1..Len(al[i][2]) |-> RlpStr(al[i][2][j])])>>)])
RlpAuths(as) ==
  RlpList([i \in 1..Len(as) |->
     RlpList(<<RlpNat(as[i].chainId), RlpStr(as[i].addr), RlpNat(as[i].nonce),
               RlpNat(as[i].v), RlpNat(as[i].r), RlpNat(as[i].s)>>)])
RlpHashes(hs) == RlpList([i \in 1..Len(hs) |-> RlpStr(hs[i])])

\* encoded fields without the signature
Fields(t) ==
  LET head == <<RlpNat(t.chainId), RlpNat(t.nonce)>>
      price == IF t.type <= 1 THEN <<RlpNat(t.gasPrice)>> ELSE <<RlpNat(t.maxPrio), RlpNat(t.maxFee)>>
      body == <<RlpNat(t.gas), RlpStr(t.to), RlpNat(t.value), RlpStr(t.data)>>
      al == <<RlpAccess(t.access)>>
  IN CASE t.type = 0 -> <<RlpNat(t.nonce)>> \o price \o body
       [] t.type \in {1, 2} -> head \o price \o body \o al
       [] t.type = 3 -> head \o price \o body \o al \o <<RlpNat(t.blobFee), RlpHashes(t.blobs)>>
       [] t.type = 4 -> head \o price \o body \o al \o <<RlpAuths(t.auths)>>
Typed(t, b) == IF t.type = 0 THEN b ELSE <<t.type>> \o b
Signature(t) == <<RlpNat(t.v), RlpNat(t.r), RlpNat(t.s)>>
EncodeTx(t) == Typed(t, RlpList(Fields(t) \o Signature(t)))
TxHash(t) == Keccak(EncodeTx(t))

Pre155(t) == t.type = 0 /\ t.v \in {<<27>>, <<28>>}
SigningHash(t, chainId) ==
  Keccak(IF t.type # 0 THEN Typed(t, RlpList(Fields(t)))
         ELSE IF Pre155(t) THEN RlpList(Fields(t))
         ELSE RlpList(Fields(t) \o <<RlpNat(chainId), RlpInt(0), RlpInt(0)>>))

SecpN == <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254,
  186, 174, 220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65>>
HalfN == NDiv(SecpN, <<2>>)

\* the sender, or <<>> if the signature is not acceptable
Sender(fk, t, chainId) ==
  LET base == NAdd(<<35>>, NMul(<<2>>, chainId))
      bit == IF t.type # 0 THEN NSat(t.v)
             ELSE IF Pre155(t) THEN NSat(t.v) - 27
             ELSE IF fk >= Spurious /\ t.v = base THEN 0
             ELSE IF fk >= Spurious /\ t.v = NAdd(base, <<1>>) THEN 1
             ELSE 2
      rOk == t.r # <<>> /\ NLt(t.r, SecpN)
      sOk == t.s # <<>> /\ (IF fk >= Homestead THEN NLe(t.s, HalfN) ELSE NLt(t.s, SecpN))
  IN IF bit > 1 \/ ~rOk \/ ~sOk THEN <<>>
     ELSE IF t.type # 0 /\ t.chainId # chainId THEN <<>>
     ELSE EcRecover(SigningHash(t, chainId), bit, t.r, t.s)

\* EIP-7702: the account that signed an authorisation, or <<>>
Authority(a) ==
  LET h == Keccak(<<5>> \o RlpList(<<RlpNat(a.chainId), RlpStr(a.addr), RlpNat(a.nonce)>>))
  IN IF a.v \notin {<<>>, <<1>>} \/ a.r = <<>> \/ ~NLt(a.r, SecpN) \/ a.s = <<>> \/ NLt(HalfN, a.s)
     THEN <<>> ELSE EcRecover(h, NSat(a.v), a.r, a.s)

----------------------------------------------------------------------------
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Tokens(data) == LET z == CountZeros(data) IN z + 4 * (Len(data) - z)
DataGas(fk, data) ==
  LET z == CountZeros(data)
  IN 4 * z + (IF fk >= Istanbul THEN 16 ELSE 68) * (Len(data) - z)
Intrinsic(fk, t) ==
  21000 + DataGas(fk, t.data)
  + (IF t.to = <<>> /\ fk >= Homestead THEN 32000 ELSE 0)
  + (IF t.to = <<>> /\ fk >= Shanghai THEN 2 * Words(Len(t.data)) ELSE 0)
  + 2400 * Len(t.access) + 1900 * SumSeq([i \in 1..Len(t.access) |-> Len(t.access[i][2])])
  + 25000 * Len(t.auths)
FloorGas(fk, t) == IF fk >= Prague THEN 21000 + 10 * Tokens(t.data) ELSE 0

U64Max == RepByte(255, 8)
MaxTxGas == 16777216
GasPerBlob == 131072

\* the fields fit the widths of the format
WellFormed(t) ==
  /\ \A x \in {t.nonce, t.value, t.v, t.r, t.s, t.blobFee} : Len(x) <= 32
  /\ t.type # 0 => Len(t.chainId) <= 8
  /\ t.type = 4 => Len(t.nonce) <= 8
  /\ \A i \in 1..Len(t.auths) :
       LET a == t.auths[i]
       IN Len(a.chainId) <= 32 /\ Len(a.nonce) <= 8 /\ Len(a.v) <= 1 /\ Len(a.r) <= 32 /\ Len(a.s) <= 32

\* "" if the transaction passes the checks that need no state
StaticReason(fk, t) ==
  IF TxTypeFork(t.type) > fk THEN "type"
  ELSE IF ~WellFormed(t) THEN "field width"
  ELSE IF NLt(t.gas, NInt(MaxOf(Intrinsic(fk, t), FloorGas(fk, t)))) THEN "intrinsic gas"
  ELSE IF NLe(U64Max, t.nonce) THEN "nonce overflow"
  ELSE IF fk >= Shanghai /\ t.to = <<>> /\ Len(t.data) > MaxInitCode(fk) THEN "initcode size"
  ELSE IF fk >= Osaka /\ NLt(NInt(MaxTxGas), t.gas) THEN "gas cap"
  ELSE ""
BlobGas(t) == IF t.type = 3 THEN GasPerBlob * Len(t.blobs) ELSE 0
=============================================================================
