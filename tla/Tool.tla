-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The transition tool: the block transition of Block.tla applied to a     *)
(* state, an environment and a list of transactions, in which a            *)
(* transaction that is not valid is set aside and the others go on as if   *)
(* it had not been there.  What the environment leaves open follows from   *)
(* the parent block, as in Chain.tla.                                      *)
(*                                                                         *)
(* An environment e has given: the set of the fields (baseFee, difficulty, *)
(* excess) that it states, and of the parent                               *)
(* pGasLimit, pGasUsed, pBaseFee, pTime, pDifficulty, pUncles, pExcess and *)
(* pBlobGas.  An option record o has state (one transaction on its own,    *)
(* without anything that belongs to a block) and reward: "fork", "none"    *)
(* or "own", which is ownReward; dao: the block is the one of the upgrade. *)
(***************************************************************************)
EXTENDS Chain

ToolBaseFee(fk, e) ==
  IF fk < London THEN <<>>
  ELSE IF "baseFee" \in e.given THEN e.baseFee ELSE BaseFee(e.pGasLimit, e.pGasUsed, e.pBaseFee)
ToolDifficulty(fk, e) ==
  IF fk >= Paris THEN <<>>
  ELSE IF "difficulty" \in e.given THEN e.difficulty
  ELSE Difficulty(fk, e.number, e.time, e.pTime, e.pDifficulty, e.pUncles)
ToolExcess(fk, e) ==
  IF fk < Cancun THEN <<>>
  ELSE IF "excess" \in e.given THEN e.excess ELSE ExcessBlob(fk, fk, e.pExcess, e.pBlobGas, e.pBaseFee)

ToolBlk(fk, e) ==
  [coinbase |-> e.coinbase, time |-> e.time, number |-> e.number, difficulty |-> ToolDifficulty(fk, e),
   randao |-> e.randao, gasLimit |-> e.gasLimit, chainId |-> e.chainId, baseFee |-> ToolBaseFee(fk, e),
   blobPrice |-> BlobPrice(fk, ToolExcess(fk, e)), hashes |-> e.hashes, beaconRoot |-> e.beaconRoot]

\* what there is to do
ToolItems(fk, in, o) ==
  LET all == Items(fk, in)
  IN IF o.state THEN SelectSeq(all, LAMBDA it : it.k = "tx" /\ it.i = 1)
     ELSE IF o.reward = "none" THEN SelectSeq(all, LAMBDA it : it.k # "rewards")
     ELSE all

\* the tool's machine: m, and the transactions that were taken (acc) and set aside (rej)
ToolStart(fk, e, w, in, o) ==
  [m |-> Machine(fk, ToolBlk(fk, e), IF o.dao THEN UpgradeWorld(DaoFork, w) ELSE w, ToolItems(fk, in, o)),
   acc |-> <<>>, rej |-> {}]
ToolStep(in, o, x) ==
  LET m == x.m
  IN IF m.phase = "next" /\ m.out.bad = "" /\ m.todo # <<>> /\ m.todo[1].k = "tx"
     THEN LET i == m.todo[1].i
          IN IF TxReason(m, in.txs[i]) # "" THEN [x EXCEPT !.m.todo = Tail(@), !.rej = @ \cup {i}]
             ELSE [x EXCEPT !.m = StepBlock(in, m), !.acc = Append(@, i)]
     ELSE IF m.phase = "next" /\ m.out.bad = "" /\ m.todo # <<>> /\ m.todo[1].k = "rewards" /\ o.reward = "own"
     THEN [x EXCEPT !.m = [RewardsOf(m, in.ommers, o.ownReward) EXCEPT !.todo = Tail(@)]]
     ELSE [x EXCEPT !.m = StepBlock(in, m)]
----------------------------------------------------------------------------
(* The names by which the tools know the forks: for blocks before number 5 *)
(* and from there on.                                                      *)
ToolNames ==
  <<<<"Frontier", 0, 0>>, <<"Homestead", 1, 1>>, <<"DaoFork", 2, 2>>, <<"TangerineWhistle", 3, 3>>, <<"SpuriousDragon", 4, 4>>,
    <<"Byzantium", 5, 5>>, <<"ConstantinopleFix", 6, 6>>, <<"Istanbul", 7, 7>>, <<"MuirGlacier", 8, 8>>, <<"Berlin", 9, 9>>,
    <<"London", 10, 10>>, <<"ArrowGlacier", 11, 11>>, <<"GrayGlacier", 12, 12>>, <<"Paris", 13, 13>>, <<"Shanghai", 14, 14>>,
    <<"Cancun", 15, 15>>, <<"Prague", 16, 16>>, <<"Osaka", 17, 17>>,
    <<"EIP150", 3, 3>>, <<"EIP158", 4, 4>>, <<"Merge", 13, 13>>,
    <<"FrontierToHomesteadAt5", 0, 1>>, <<"HomesteadToDaoAt5", 1, 2>>, <<"HomesteadToEIP150At5", 1, 3>>, <<"EIP158ToByzantiumAt5", 4, 5>>,
    <<"ByzantiumToConstantinopleAt5", 5, 6>>, <<"ConstantinopleToIstanbulAt5", 6, 7>>, <<"BerlinToLondonAt5", 9, 10>>>>
KnownNames == {ToolNames[i][1] : i \in 1..Len(ToolNames)}
NamedFork(name, number) ==
  LET f == CHOOSE i \in 1..Len(ToolNames) : ToolNames[i][1] = name
  IN ToolNames[f][IF NLt(number, NInt(5)) THEN 2 ELSE 3]
----------------------------------------------------------------------------
(* A file of state tests: a sequence of <<key, posts>>, posts being a      *)
(* sequence of <<fork name, entries>>, an entry <<data, gas, value, root>> *)
(* with indexes from 0.  Its cases are taken in the order of the file;     *)
(* those of unknown forks are passed over.                                 *)
RECURSIVE PostCases(_, _)
PostCases(key, posts) ==
  IF posts = <<>> THEN <<>>
  ELSE (IF posts[1][1] \notin KnownNames THEN <<>>
        ELSE [i \in 1..Len(posts[1][2]) |-> [key |-> key, fork |-> posts[1][1], at |-> posts[1][2][i]]])
       \o PostCases(key, Tail(posts))
RECURSIVE CasesOf(_)
CasesOf(file) == IF file = <<>> THEN <<>> ELSE PostCases(file[1][1], file[1][2]) \o CasesOf(Tail(file))
\* which of the transactions that a test describes is meant
Meant(test, at, txs) ==
  CHOOSE i \in 1..Len(txs) :
    /\ txs[i].data = test.data[at[1] + 1]
    /\ txs[i].gas = test.gas[at[2] + 1]
    /\ txs[i].value = test.value[at[3] + 1]
    /\ txs[i].access = IF test.access = <<>> THEN <<>> ELSE test.access[at[1] + 1]
=============================================================================
