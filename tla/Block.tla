-------------------------------- MODULE Block -------------------------------
(***************************************************************************)
(* The block transition: system calls, transactions, withdrawals, rewards  *)
(* and requests, as steps around the frames of EVM.tla.                    *)
(*                                                                         *)
(* In addition to the fields used by EVM.tla a machine has                 *)
(*   phase  "next", "run" or "end"                                         *)
(*   item   the block item that is running                                 *)
(*   todo   the block items that remain                                    *)
(*   out    gas, blobGas, receipts, requests, and bad: why the block is    *)
(*          invalid ("" if it is not)                                      *)
(*   hold   ether paid for the gas of the running transaction              *)
(*   mint   ether created by the block (ghost); supply0: the supply before *)
(***************************************************************************)
EXTENDS EVM, Tx

H(s) == UnHex(s)
SystemAddr == H("fffffffffffffffffffffffffffffffffffffffe")
BeaconRootsAddr == H("000f3df6d732807ef1319fb7b8bb8522d0beac02")
HistoryAddr == H("0000f90827f1c53a10cb7a02335b175320002935")
WithdrawalReqAddr == H("00000961ef480eb55e80d19ad83579a64c007002")
ConsolidationReqAddr == H("0000bbddc7ce488642fb579f8b00f3a590007251")
DepositAddr == H("00000000219ab540356cbb839cbe05303d7705fa")
DepositTopic == H("649bbc62d0e31342afea4e5cd82d4049e7e1ee912fc0889aa790803be39038c5")

----------------------------------------------------------------------------
(* Blob gas price: factor * e^(num/den) by the integer Taylor series *)
RECURSIVE Taylor(_, _, _, _, _)
Taylor(acc, num, den, i, sum) ==
  IF acc = <<>> THEN NDiv(sum, den)
  ELSE Taylor(NDiv(NMul(acc, num), NMul(den, NInt(i))), num, den, i + 1, NAdd(sum, acc))
FakeExp(factor, num, den) == Taylor(NMul(factor, den), num, den, 1, <<>>)
BlobPrice(fk, excess) ==
  IF fk < Cancun THEN <<>> ELSE FakeExp(<<1>>, excess, NInt(BlobFraction(fk)))

----------------------------------------------------------------------------
(* Admission of a transaction *)
FeeMarket(t) == t.type >= 2
MaxPrice(t) == IF FeeMarket(t) THEN t.maxFee ELSE t.gasPrice
EffectivePrice(m, t) ==
  IF FeeMarket(t) THEN NAdd(m.blk.baseFee, NMin(t.maxPrio, NSub(t.maxFee, m.blk.baseFee)))
  ELSE t.gasPrice

TxReason(m, t) ==
  LET fk == m.fk
      st == StaticReason(fk, t)
      sender == Sender(fk, t, m.blk.chainId)
      acc == Acct(m.w, sender)
      blobFee == IF t.type = 3 THEN NMul(NInt(BlobGas(t)), t.blobFee) ELSE <<>>
      need == NAdd(NAdd(NMul(t.gas, MaxPrice(t)), blobFee), t.value)
  IN IF st # "" THEN st
     ELSE IF NLt(NInt(m.blk.gasLimit - m.out.gas), t.gas) THEN "block gas"
     ELSE IF m.out.blobGas + BlobGas(t) > GasPerBlob * BlobMax(fk) THEN "block blob gas"
     ELSE IF sender = <<>> THEN "signature"
     ELSE IF FeeMarket(t) /\ NLt(t.maxFee, t.maxPrio) THEN "priority fee"
     ELSE IF NLt(MaxPrice(t), m.blk.baseFee) THEN "base fee"
     ELSE IF t.type = 3 /\ t.blobs = <<>> THEN "no blobs"
     ELSE IF t.type = 3 /\ fk >= Osaka /\ Len(t.blobs) > 6 THEN "blob count"
     ELSE IF t.type = 3 /\ \E i \in 1..Len(t.blobs) : t.blobs[i][1] # 1 THEN "blob version"
     ELSE IF t.type = 3 /\ NLt(t.blobFee, m.blk.blobPrice) THEN "blob fee"
     ELSE IF t.type \in {3, 4} /\ t.to = <<>> THEN "no target"
     ELSE IF t.type = 4 /\ t.auths = <<>> THEN "no authorisations"
     ELSE IF acc.n # t.nonce THEN "nonce"
     ELSE IF NLt(acc.b, need) THEN "balance"
     ELSE IF acc.c # <<>> /\ ~(fk >= Prague /\ IsDelegation(acc.c)) THEN "sender has code"
     ELSE ""

----------------------------------------------------------------------------
(* EIP-7702: apply the authorisations in order: <<world, accessed, refund>> *)
RECURSIVE Authorise(_, _, _)
Authorise(m, as, acc) ==
  IF as = <<>> THEN acc
  ELSE LET a == as[1]
           w == acc[1]
           who == Authority(a)
           old == Acct(w, who)
           next(x) == Authorise(m, Tail(as), x)
       IN IF a.chainId \notin {<<>>, m.blk.chainId} THEN next(acc)
          ELSE IF NLe(U64Max, a.nonce) THEN next(acc)
          ELSE IF who = <<>> THEN next(acc)
          ELSE IF (old.c # <<>> /\ ~IsDelegation(old.c)) \/ old.n # a.nonce
          THEN next(<<w, acc[2] \cup {who}, acc[3]>>)
          ELSE next(<<SetAcct(m.fk, w, who,
                              [old EXCEPT !.c = IF a.addr = Zeros(20) THEN <<>>
                                                ELSE <<239, 1, 0>> \o a.addr,
                                          !.n = NAdd(@, <<1>>)]),
                      acc[2] \cup {who},
                      acc[3] + (IF Exists(w, who) THEN 12500 ELSE 0)>>)

----------------------------------------------------------------------------
(* Start of a top-level message *)
NoTx == [origin |-> <<>>, gasPrice |-> <<>>, blobs |-> <<>>]

\* the outermost call frame to an address, resolving a delegation of the target
TopCall(m, caller, to, value, data, gas, aA, aK, xfer) ==
  LET code0 == Acct(m.w, to).c
      dlg == m.fk >= Prague /\ IsDelegation(code0)
      cad == IF dlg THEN DelegateOf(code0) ELSE to
      code == IF dlg THEN Acct(m.w, cad).c ELSE code0
  IN [m EXCEPT !.fr = Frame("call", caller, to, cad, code, value, data, gas, FALSE, 0,
                            IF dlg THEN aA \cup {cad} ELSE aA, aK, m.w, <<>>, <<>>, dlg),
               !.orig = m.w.s, !.crtd = {}, !.phase = "run",
               !.w = EnterCall(m.fk, m.w, caller, to, value, xfer)]

SystemCall(m, to, data) ==
  TopCall([m EXCEPT !.tx = [origin |-> SystemAddr, gasPrice |-> m.blk.baseFee, blobs |-> <<>>],
                    !.w = [@ EXCEPT !.t = EmptyMap], !.authRefund = 0],
          SystemAddr, to, <<>>, data, 30000000, {}, {}, FALSE)

StartTx(m, t) ==
  LET fk == m.fk
      sender == Sender(fk, t, m.blk.chainId)
      price == EffectivePrice(m, t)
      gas == NSat(t.gas)
      blobFee == IF t.type = 3 THEN NMul(NInt(BlobGas(t)), m.blk.blobPrice) ELSE <<>>
      buy == NAdd(NMul(t.gas, price), blobFee)
      old == Acct(m.w, sender)
      w1 == SetAcct(fk, m.w, sender, [old EXCEPT !.n = NAdd(@, <<1>>), !.b = NSub(@, buy)])
      aA0 == IF fk < Berlin THEN {}
             ELSE {sender} \cup PrecompileAddrs[fk + 1]
                  \cup {t.access[i][1] : i \in 1..Len(t.access)}
                  \cup (IF fk >= Shanghai THEN {m.blk.coinbase} ELSE {})
      aK0 == UNION {{<<t.access[i][1], NNorm(t.access[i][2][j])>> : j \in 1..Len(t.access[i][2])}
                    : i \in 1..Len(t.access)}
      exe == gas - Intrinsic(fk, t)
      m1 == [m EXCEPT !.w = [w1 EXCEPT !.t = EmptyMap], !.authRefund = 0, !.hold = buy,
                      !.tx = [origin |-> sender, gasPrice |-> price, blobs |-> t.blobs]]
      new == CreateAddress(sender, old.n)
      aA1 == IF fk < Berlin THEN {} ELSE aA0 \cup {IF t.to = <<>> THEN new ELSE t.to}
  IN IF t.to = <<>>
     THEN IF Collides(m1.w, new)
          THEN [m1 EXCEPT !.phase = "run", !.orig = m1.w.s, !.crtd = {},
                          !.fr = [Frame("create", sender, new, <<>>, <<>>, t.value, <<>>, 0, FALSE, 0,
                                        aA1, aK0, m1.w, <<>>, <<>>, FALSE) EXCEPT !.done = "halt"]]
          ELSE [m1 EXCEPT !.phase = "run", !.orig = m1.w.s, !.crtd = {new},
                          !.fr = Frame("create", sender, new, <<>>, t.data, t.value, <<>>, exe, FALSE, 0,
                                       aA1, aK0, m1.w, <<>>, <<>>, FALSE),
                          !.w = EnterCreate(fk, m1.w, sender, new, t.value)]
     ELSE LET au == IF t.auths = <<>> THEN <<m1.w, aA1, 0>>
                    ELSE Authorise(m, t.auths, <<m1.w, aA1, 0>>)
          IN TopCall([m1 EXCEPT !.w = au[1], !.authRefund = au[3]],
                     sender, t.to, t.value, t.data, exe, au[2], aK0, TRUE)

----------------------------------------------------------------------------
(* Settlement of a transaction; m.fr is the settled outermost frame *)
RECURSIVE DestroyAll(_, _)
DestroyAll(w, as) ==
  IF as = {} THEN w ELSE LET a == CHOOSE x \in as : TRUE IN DestroyAll(Destroy(w, a), as \ {a})
Balances(w, as) ==      \* sum of the balances of a set of accounts
  LET RECURSIVE F(_)
      F(s) == IF s = {} THEN <<>> ELSE LET a == CHOOSE x \in s : TRUE
                                       IN NAdd(Acct(w, a).b, F(s \ {a}))
  IN F(as)
Supply(w) == Balances(w, DOMAIN w.a)

FinishTx(m, t) ==
  LET fk == m.fk
      fr == m.fr
      err == IsErr(fr)
      gas == NSat(t.gas)
      price == m.tx.gasPrice
      before == gas - fr.gas
      counter == m.authRefund + (IF err THEN 0 ELSE fr.refund)
      refund == MinOf(before \div RefundQuotient(fk), counter)
      used == MaxOf(before - refund, FloorGas(fk, t))
      tip == IF fk >= London THEN NSub(price, m.blk.baseFee) ELSE price
      w1 == AddBal(fk, m.w, m.tx.origin, NMul(NInt(gas - used), price))
      cb == NAdd(Acct(w1, m.blk.coinbase).b, NMul(NInt(used), tip))
      w2 == IF fk < Spurious \/ cb # <<>> THEN SetBal(fk, w1, m.blk.coinbase, cb)
            ELSE IF ExistsEmpty(w1, m.blk.coinbase) THEN Destroy(w1, m.blk.coinbase)
            ELSE w1
      dels == IF err THEN {} ELSE fr.dels
      w3 == DestroyAll(w2, dels)
      touched == IF err \/ fk < Spurious \/ fk >= Paris THEN {}
                 ELSE fr.touched \cup (IF t.to # <<>> /\ ExistsEmpty(m.w, t.to) THEN {t.to} ELSE {})
      w4 == DestroyAll(w3, {a \in touched : ExistsEmpty(w3, a)})
      cum == m.out.gas + used
      logs == IF err THEN <<>> ELSE fr.logs
        gone == NAdd(Balances(w2, dels),
                   NAdd(IF fk >= London THEN NMul(NInt(used), m.blk.baseFee) ELSE <<>>,
                        IF t.type = 3 THEN NMul(NInt(BlobGas(t)), m.blk.blobPrice) ELSE <<>>))
  IN [m EXCEPT !.w = [w4 EXCEPT !.t = EmptyMap, !.x = NAdd(@, gone)], !.fr = NoFrame, !.hold = <<>>, !.phase = "next",
               !.out = [@ EXCEPT !.gas = cum, !.blobGas = @ + BlobGas(t),
                                 !.receipts = Append(@, [type |-> t.type, ok |-> ~err, cum |-> cum,
                                                         logs |-> logs, w |-> w4])]]

----------------------------------------------------------------------------
(* Withdrawals, rewards, requests *)
Gwei == NInt(1000000000)
Withdraw(m, wd) ==   \* wd: [addr, amount]
  LET v == NMul(wd.amount, Gwei)
      w1 == AddBal(m.fk, m.w, wd.addr, v)
  IN [m EXCEPT !.w = w1, !.mint = NAdd(@, v)]

Ether == NMul(Gwei, Gwei)
BlockReward(fk) ==
  IF fk >= Paris THEN <<>>
  ELSE IF fk >= Constantinople THEN NMul(<<2>>, Ether)
  ELSE IF fk >= Byzantium THEN NMul(<<3>>, Ether) ELSE NMul(<<5>>, Ether)
RECURSIVE PayOmmers(_, _, _)
PayOmmers(m, os, r) ==   \* os: sequence of [coinbase, number]
  IF os = <<>> THEN m
  ELSE LET age == NSub(m.blk.number, os[1].number)
           v == NDiv(NMul(NSub(<<8>>, age), r), <<8>>)
       IN PayOmmers([m EXCEPT !.w = AddBal(m.fk, @, os[1].coinbase, v), !.mint = NAdd(@, v)], Tail(os), r)
RewardsOf(m, os, r) ==
  LET v == NAdd(r, NMul(NInt(Len(os)), NDiv(r, <<32>>)))
  IN PayOmmers([m EXCEPT !.w = AddBal(m.fk, @, m.blk.coinbase, v), !.mint = NAdd(@, v)], os, r)
Rewards(m, os) == RewardsOf(m, os, BlockReward(m.fk))

\* EIP-6110 event layout
DepositOk(d) ==
  /\ Len(d) = 576
  /\ \A p \in {<<0, 160>>, <<32, 256>>, <<64, 320>>, <<96, 384>>, <<128, 512>>,
               <<160, 48>>, <<256, 32>>, <<320, 8>>, <<384, 96>>, <<512, 8>>} :
       NNorm(SubSeq(d, p[1] + 1, p[1] + 32)) = NInt(p[2])
DepositData(d) == SubSeq(d, 193, 240) \o SubSeq(d, 289, 320) \o SubSeq(d, 353, 360)
                  \o SubSeq(d, 417, 512) \o SubSeq(d, 545, 552)
IsDeposit(l) == l.a = DepositAddr /\ Len(l.t) > 0 /\ l.t[1] = DepositTopic
AllLogs(m) == LET RECURSIVE F(_)
                  F(rs) == IF rs = <<>> THEN <<>> ELSE rs[1].logs \o F(Tail(rs))
              IN F(m.out.receipts)
Deposits(m) ==
  LET ds == SelectSeq(AllLogs(m), IsDeposit)
      good == \A i \in 1..Len(ds) : DepositOk(ds[i].d)
  IN IF ~good THEN [m EXCEPT !.out.bad = "deposit event"]
     ELSE IF ds = <<>> THEN m
     ELSE [m EXCEPT !.out.requests = Append(@, <<0>> \o Concat([i \in 1..Len(ds) |-> DepositData(ds[i].d)]))]

CheckedCall(m, to) ==
  IF Acct(m.w, to).c = <<>> THEN [m EXCEPT !.out.bad = "system contract missing"]
  ELSE SystemCall(m, to, <<>>)
Request(m, prefix) ==
  LET done == [m EXCEPT !.fr = NoFrame, !.phase = "next"]
  IN IF IsErr(m.fr) THEN [done EXCEPT !.out.bad = "system contract failed"]
     ELSE IF m.fr.out = <<>> THEN done
     ELSE [done EXCEPT !.out.requests = Append(@, <<prefix>> \o m.fr.out)]

----------------------------------------------------------------------------
(* The steps *)
\* in: [txs, withdrawals, ommers]
Items(fk, in) ==
  (IF fk >= Cancun THEN <<[k |-> "beacon", i |-> 0]>> ELSE <<>>)
  \o (IF fk >= Prague THEN <<[k |-> "history", i |-> 0]>> ELSE <<>>)
  \o [i \in 1..Len(in.txs) |-> [k |-> "tx", i |-> i]]
  \o (IF fk >= Shanghai THEN [i \in 1..Len(in.withdrawals) |-> [k |-> "withdrawal", i |-> i]] ELSE <<>>)
  \o (IF fk < Paris THEN <<[k |-> "rewards", i |-> 0]>> ELSE <<>>)
  \o (IF fk >= Prague THEN <<[k |-> "deposits", i |-> 0], [k |-> "wreq", i |-> 0], [k |-> "creq", i |-> 0]>>
      ELSE <<>>)

StartItem(in, m0) ==
  LET it == m0.todo[1]
      m == [m0 EXCEPT !.item = it, !.todo = Tail(@)]
  IN CASE it.k = "beacon" -> SystemCall(m, BeaconRootsAddr, m.blk.beaconRoot)
       [] it.k = "history" -> SystemCall(m, HistoryAddr, m.blk.hashes[Len(m.blk.hashes)])
       [] it.k = "tx" -> LET r == TxReason(m, in.txs[it.i])
                         IN IF r # "" THEN [m EXCEPT !.out.bad = r] ELSE StartTx(m, in.txs[it.i])
       [] it.k = "withdrawal" -> Withdraw(m, in.withdrawals[it.i])
       [] it.k = "rewards" -> Rewards(m, in.ommers)
       [] it.k = "deposits" -> Deposits(m)
       [] it.k = "wreq" -> CheckedCall(m, WithdrawalReqAddr)
       [] it.k = "creq" -> CheckedCall(m, ConsolidationReqAddr)
       [] it.k = "msg" -> LET g == in.msg
                          IN [m EXCEPT !.phase = "run", !.orig = m.w.s, !.crtd = {},
                                       !.tx = g.tx, !.authRefund = 0,
                                       !.fr = Frame("call", g.caller, g.to, g.to, Acct(m.w, g.to).c, g.value,
                                                    g.data, g.gas, g.static, g.depth, g.aA, g.aK, m.w,
                                                    <<>>, <<>>, FALSE),
                                       !.w = EnterCall(m.fk, m.w, g.caller, g.to, g.value, g.xfer)]

FinishItem(in, m) ==     \* the outermost frame is done and settled
  CASE m.item.k \in {"beacon", "history"} -> [m EXCEPT !.fr = NoFrame, !.phase = "next"]
    [] m.item.k = "tx" -> FinishTx(m, in.txs[m.item.i])
    [] m.item.k = "wreq" -> Request(m, 1)
    [] m.item.k = "creq" -> Request(m, 2)
    [] m.item.k = "msg" -> [m EXCEPT !.phase = "next"]

StepBlock(in, m) ==
  IF m.out.bad # "" THEN [m EXCEPT !.phase = "end"]
  ELSE IF m.phase = "run"
  THEN IF m.fr.done # "" /\ m.st = <<>> THEN FinishItem(in, Settle(m)) ELSE StepFrame(m)
  ELSE IF m.todo = <<>> THEN [m EXCEPT !.phase = "end"]
  ELSE StartItem(in, m)

\* initial machine of a block
Machine(fk, blk, w, todo) ==
  [fk |-> fk, blk |-> blk, w |-> w, orig |-> w.s, crtd |-> {}, tx |-> NoTx, authRefund |-> 0,
   fr |-> NoFrame, st |-> <<>>, phase |-> "next", item |-> [k |-> "", i |-> 0], todo |-> todo,
   out |-> [gas |-> 0, blobGas |-> 0, receipts |-> <<>>, requests |-> <<>>, bad |-> ""],
   hold |-> <<>>, mint |-> <<>>, supply0 |-> Supply(w)]
=============================================================================
