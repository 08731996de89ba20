------------------------------ MODULE ToolTrace -----------------------------
(***************************************************************************)
(* Trace validation of the transition tool: each scenario is a run of the  *)
(* real tool, with what it wrote.                                          *)
(***************************************************************************)
EXTENDS TraceLib, Tool

Raw == JsonDeserialize(IOEnv.SCENARIOS)

ConvEnv(j) ==
  [given |-> {j.given[i] : i \in 1..Len(j.given)},
   coinbase |-> UnHex(j.coinbase), time |-> N(j.time), number |-> N(j.number), gasLimit |-> j.gasLimit,
   difficulty |-> N(j.difficulty), baseFee |-> N(j.baseFee), excess |-> N(j.excess), randao |-> UnHex(j.randao),
   chainId |-> N(j.chainId), hashes |-> [i \in 1..Len(j.hashes) |-> UnHex(j.hashes[i])], beaconRoot |-> UnHex(j.beaconRoot),
   pGasLimit |-> N(j.pGasLimit), pGasUsed |-> N(j.pGasUsed), pBaseFee |-> N(j.pBaseFee), pTime |-> N(j.pTime),
   pDifficulty |-> N(j.pDifficulty), pUncles |-> j.pUncles, pExcess |-> N(j.pExcess), pBlobGas |-> N(j.pBlobGas)]
ConvOpt(j) ==
  [state |-> j.state, dao |-> j.dao,
   reward |-> IF j.reward = "none" THEN "none" ELSE IF j.reward = "" THEN "fork" ELSE "own",
   ownReward |-> IF j.reward \in {"none", ""} THEN <<>> ELSE N(j.reward)]
NHex(b) == Hex(NNorm(b))
\* a scenario that is a case of a file of state tests
IsTest(j) == "test" \in DOMAIN j
CaseOf(j) == CasesOf(j.file)[j.k]
Ins == [i \in 1..Len(Raw) |->
          IF ~IsTest(Raw[i]) THEN ConvIn(Raw[i])
          ELSE [ConvIn(Raw[i]) EXCEPT !.txs = <<@[Meant(Raw[i].test, CaseOf(Raw[i]).at, Raw[i].txs)]>>]]
Opts == [i \in 1..Len(Raw) |-> ConvOpt(Raw[i].opt)]

VARIABLES sc, x, n, v
vars == <<sc, x, n, v>>
View == <<sc, n>>

Init ==
  /\ sc \in 1..Len(Raw)
  /\ n = 0 /\ v = ""
  /\ x = ToolStart(Raw[sc].fork, ConvEnv(Raw[sc].env), ConvWorld(Raw[sc].pre), Ins[sc], Opts[sc])

\* an encoded transaction as it stands in the body of a block
BodyTx(t) == IF t.type = 0 THEN EncodeTx(t) ELSE RlpStr(EncodeTx(t))

Yes(b) == IF b THEN "true" ELSE "false"
TestOutcome ==
  LET e == Raw[sc].exp
      c == CaseOf(Raw[sc])
      root == Hex(StateRoot(x.m.w))
  IN IF e.crash # "" THEN <<"crash", "", x.m.out.bad, e.crash>>
     ELSE FirstOf(<<
       Cmp("number of results", ToString(Len(CasesOf(Raw[sc].file))), e.total),
       Cmp("name", c.key, e.key),
       Cmp("fork name", c.fork, e.fork),
       Cmp("state root", root, e.root),
       Cmp("state root on the error output", root, e.side),
       Cmp("passed", Yes(root = c.at[4]), e.pass),
       Cmp("error told", Yes(root # c.at[4]), e.error)>>)
ToolOutcome ==
  LET m == x.m
      fk == m.fk
      in == Ins[sc]
      o == Opts[sc]
      e == Raw[sc].exp
      env == ConvEnv(Raw[sc].env)
      rs == m.out.receipts
      txs == [k \in 1..Len(x.acc) |-> in.txs[x.acc[k]]]
      logs == AllLogs(m)
      rej == {i - 1 : i \in x.rej}
      absent(b, s) == IF b THEN s ELSE "absent"
      receipt(k) == <<Hex(TxHash(txs[k])),
                      IF fk < Byzantium THEN Hex(StateRoot(rs[k].w)) ELSE IF rs[k].ok THEN "true" ELSE "false",
                      NHex(NInt(rs[k].cum)), Hex(Bloom(rs[k].logs))>>
      wds == IF o.state THEN <<>> ELSE [i \in 1..Len(in.withdrawals) |-> WithdrawalRlp(in.withdrawals[i])]
  IN IF e.crash # "" THEN <<"crash", "", m.out.bad, e.crash>>
     ELSE IF (m.out.bad # "") # (e.bad # "") THEN <<"block exception", "", m.out.bad, e.bad>>
     ELSE IF rej # {e.rejected[i] : i \in 1..Len(e.rejected)} THEN <<"rejected", "", ToString(rej), ToString(e.rejected)>>
     ELSE FirstOf(<<
       Cmp("fork", ToString(NamedFork(Raw[sc].fork_name, env.number)), ToString(fk)),
       Cmp("base fee", NHex(ToolBaseFee(fk, env)), e.baseFee),
       Cmp("difficulty", NHex(ToolDifficulty(fk, env)), e.difficulty),
       Cmp("excess blob gas", absent(fk >= Cancun, NHex(ToolExcess(fk, env))), e.excess),
       Cmp("body", IF "body" \in DOMAIN Raw[sc] THEN Hex(RlpList([i \in 1..Len(in.txs) |-> BodyTx(in.txs[i])])) ELSE "absent", e.body),
       IF m.out.bad # "" THEN <<>>
       ELSE FirstOf(<<
         DiffState(m.w, ConvState(e.state)),
         Cmp("gas used", NHex(NInt(m.out.gas)), e.gas),
         Cmp("blob gas used", absent(fk >= Cancun, NHex(NInt(m.out.blobGas))), e.blobGas),
         Cmp("receipts", [k \in 1..Len(rs) |-> receipt(k)], e.receipts),
         Cmp("requests", [i \in 1..Len(m.out.requests) |-> Hex(m.out.requests[i])], e.requests),
         Cmp("state root", Hex(StateRoot(m.w)), e.stateRoot),
         Cmp("receipts root", Hex(ListRoot([k \in 1..Len(rs) |-> ReceiptRlp(fk, rs[k])])), e.receiptsRoot),
         Cmp("transactions root", Hex(ListRoot([k \in 1..Len(txs) |-> EncodeTx(txs[k])])), e.txRoot),
         Cmp("bloom", Hex(Bloom(logs)), e.bloom),
         Cmp("logs hash", Hex(Keccak(RlpList([i \in 1..Len(logs) |-> LogRlp(logs[i])]))), e.logsHash),
         Cmp("withdrawals root", absent(fk >= Shanghai, Hex(ListRoot(wds))), e.withdrawalsRoot),
         Cmp("requests hash", absent(fk >= Prague, Hex(RequestsHash(m.out.requests))), e.requestsHash),
         IF e.imported = "-" THEN <<>> ELSE Cmp("import of the same block", "", e.imported)>>)>>)

Outcome == IF IsTest(Raw[sc]) THEN TestOutcome ELSE ToolOutcome

Report(d) == PrintT(<<"VERDICT", Raw[sc].name, ToString(n), IF d = <<>> THEN <<"ok">> ELSE d>>)
Next ==
  /\ v = ""
  /\ n' = n + 1
  /\ sc' = sc
  /\ IF x.m.phase = "end" THEN Report(Outcome) /\ v' = "done" /\ UNCHANGED x
     ELSE x' = ToolStep(Ins[sc], Opts[sc], x) /\ UNCHANGED v
Spec == Init /\ [][Next]_vars

Conservation == NAdd(NAdd(Supply(x.m.w), x.m.w.x), x.m.hold) = NAdd(x.m.supply0, x.m.mint)
Apart == /\ {x.acc[i] : i \in 1..Len(x.acc)} \cap x.rej = {}
         /\ \A i \in 2..Len(x.acc) : x.acc[i-1] < x.acc[i]
=============================================================================
