------------------------------ MODULE TraceLib -----------------------------
(* Reading recordings, and naming differences. *)
EXTENDS Block, Trie, Json, IOUtils

N(s) == NNorm(UnHex(s))

ConvAcct(j) == <<UnHex(j[1]), [n |-> N(j[2]), b |-> N(j[3]), c |-> UnHex(j[4])]>>
ConvStore(j) == <<UnHex(j[1]), MapOf([i \in 1..Len(j[5]) |-> <<N(j[5][i][1]), N(j[5][i][2])>>])>>
ConvState(js) ==
  LET full == SelectSeq(js, LAMBDA j : Len(j[5]) > 0)
      accts == SelectSeq(js, LAMBDA j : Len(j[2]) > 0)   \* nonce "" marks storage without an account
  IN [a |-> MapOf([i \in 1..Len(accts) |-> ConvAcct(accts[i])]),
      s |-> MapOf([i \in 1..Len(full) |-> ConvStore(full[i])])]
ConvWorld(js) == LET st == ConvState(js)
                 IN [a |-> st.a, s |-> st.s, t |-> EmptyMap, x |-> <<>>]
ConvBlk(fk, j) ==
  [coinbase |-> UnHex(j.coinbase), time |-> N(j.time), number |-> N(j.number),
   difficulty |-> N(j.difficulty), randao |-> UnHex(j.randao), gasLimit |-> j.gasLimit,
   chainId |-> N(j.chainId), baseFee |-> N(j.baseFee), blobPrice |-> BlobPrice(fk, N(j.excess)),
   hashes |-> [i \in 1..Len(j.hashes) |-> UnHex(j.hashes[i])], beaconRoot |-> UnHex(j.beaconRoot)]
ConvTx(j) ==
  [type |-> j.type, chainId |-> N(j.chainId), nonce |-> N(j.nonce), gasPrice |-> N(j.gasPrice),
   maxPrio |-> N(j.maxPrio), maxFee |-> N(j.maxFee), gas |-> N(j.gas), to |-> UnHex(j.to),
   value |-> N(j.value), data |-> UnHex(j.data),
   access |-> [i \in 1..Len(j.access) |-> <<UnHex(j.access[i][1]),
                 [k \in 1..Len(j.access[i][2]) |-> UnHex(j.access[i][2][k])]>>],
   blobFee |-> N(j.blobFee), blobs |-> [i \in 1..Len(j.blobs) |-> UnHex(j.blobs[i])],
   auths |-> [i \in 1..Len(j.auths) |->
      [chainId |-> N(j.auths[i].chainId), addr |-> UnHex(j.auths[i].addr), nonce |-> N(j.auths[i].nonce),
       v |-> N(j.auths[i].v), r |-> N(j.auths[i].r), s |-> N(j.auths[i].s)]],
   v |-> N(j.v), r |-> N(j.r), s |-> N(j.s)]
ConvMsg(j) ==
  [caller |-> UnHex(j.caller), to |-> UnHex(j.to), value |-> N(j.value), data |-> UnHex(j.data),
   gas |-> j.gas, static |-> j.static, depth |-> j.depth, xfer |-> j.xfer,
   aA |-> {UnHex(j.aA[i]) : i \in 1..Len(j.aA)},
   aK |-> {<<UnHex(j.aK[i][1]), N(j.aK[i][2])>> : i \in 1..Len(j.aK)},
   tx |-> [origin |-> UnHex(j.origin), gasPrice |-> N(j.gasPrice), blobs |-> <<>>]]
ConvIn(j) ==
  [txs |-> [i \in 1..Len(j.txs) |-> ConvTx(j.txs[i])],
   withdrawals |-> [i \in 1..Len(j.withdrawals) |->
      [index |-> N(j.withdrawals[i].index), validator |-> N(j.withdrawals[i].validator),
       addr |-> UnHex(j.withdrawals[i].addr), amount |-> N(j.withdrawals[i].amount)]],
   ommers |-> [i \in 1..Len(j.ommers) |-> [coinbase |-> UnHex(j.ommers[i].coinbase),
                                           number |-> N(j.ommers[i].number)]],
   msg |-> IF Len(j.msg) = 0 THEN <<>> ELSE ConvMsg(j.msg[1])]
ConvHeader(j) ==
  [fk |-> j.fk, parent |-> UnHex(j.parent), ommersHash |-> UnHex(j.ommersHash), coinbase |-> UnHex(j.coinbase),
   stateRoot |-> UnHex(j.stateRoot), txRoot |-> UnHex(j.txRoot), receiptRoot |-> UnHex(j.receiptRoot),
   bloom |-> UnHex(j.bloom), difficulty |-> N(j.difficulty), number |-> N(j.number),
   gasLimit |-> N(j.gasLimit), gasUsed |-> N(j.gasUsed), time |-> N(j.time), extra |-> UnHex(j.extra),
   mix |-> UnHex(j.mix), nonce |-> UnHex(j.nonce), baseFee |-> N(j.baseFee), wRoot |-> UnHex(j.wRoot),
   blobGas |-> N(j.blobGas), excess |-> N(j.excess), beaconRoot |-> UnHex(j.beaconRoot), reqHash |-> UnHex(j.reqHash)]
ConvHeaders(js) == [i \in 1..Len(js) |-> ConvHeader(js[i])]
----------------------------------------------------------------------------
DiffState(w, st) ==
  LET as == {a \in DOMAIN w.a \cup DOMAIN st.a :
               \/ a \notin DOMAIN w.a \/ a \notin DOMAIN st.a \/ w.a[a] # st.a[a]}
      ss == {a \in DOMAIN w.s \cup DOMAIN st.s :
               \/ a \notin DOMAIN w.s \/ a \notin DOMAIN st.s \/ w.s[a] # st.s[a]}
      show(f, a) == IF a \in DOMAIN f THEN ToString(f[a]) ELSE "absent"
  IN IF as # {} THEN LET a == CHOOSE a \in as : TRUE
                     IN <<"account", Hex(a), show(w.a, a), show(st.a, a)>>
     ELSE IF ss # {} THEN LET a == CHOOSE a \in ss : TRUE
                          IN <<"storage", Hex(a), show(w.s, a), show(st.s, a)>>
     ELSE <<>>
Cmp(what, a, b) == IF a = b THEN <<>> ELSE <<what, "", ToString(a), ToString(b)>>
RECURSIVE FirstOf(_)
FirstOf(s) == IF s = <<>> THEN <<>> ELSE IF s[1] # <<>> THEN s[1] ELSE FirstOf(Tail(s))

=============================================================================
