------------------------------ MODULE RowTrace ------------------------------
(***************************************************************************)
(* Functions of the real code, sampled: each scenario is a list of rows    *)
(* <<operation, inputs, result>>, and the result must be the one of the    *)
(* specification.  Naturals and byte strings are hexadecimal.              *)
(***************************************************************************)
EXTENDS TraceLib, Forms, Ethash, Schedule

Raw == JsonDeserialize(IOEnv.SCENARIOS)
VARIABLES sc, v
vars == <<sc, v>>

NHex(x) == Hex(NNorm(x))
Yes(p) == IF p THEN "true" ELSE "false"
\* a criterion is given as kind, value
Crit(k, x) == <<NSat(N(k)), N(x)>>
CritsOf(s) == [i \in 1..Len(s) |-> Crit(s[i][1], s[i][2])]
Compare(c, d) ==
  LET lt == CritLt(NLt, c, d)
      gt == CritLt(NLt, d, c)
      eq == c = d
  IN Yes(lt) \o " " \o Yes(lt \/ eq) \o " " \o Yes(eq) \o " " \o Yes(~eq) \o " " \o Yes(gt \/ eq) \o " " \o Yes(gt)
RECURSIVE Follow(_, _, _, _)
\* the forks a client is on: number of the block before, fork before, times
Follow(s, at, number, times) ==
  IF times = <<>> THEN ""
  ELSE LET n == NAdd(number, <<1>>)
           f == FollowFrom(NLt, s, at, n, N(times[1]))
       IN " " \o ToString(f) \o (IF f # at THEN "+" ELSE "") \o Follow(s, f, n, Tail(times))
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE " " \o s[1] \o Joined(Tail(s))
\* the activation of the forks on the main network
MainNet == <<
  <<<<0, NInt(0)>>, "frontier">>, <<<<0, NInt(1150000)>>, "homestead">>, <<<<0, NInt(1920000)>>, "dao_fork">>,
  <<<<0, NInt(2463000)>>, "tangerine_whistle">>, <<<<0, NInt(2675000)>>, "spurious_dragon">>,
  <<<<0, NInt(4370000)>>, "byzantium">>, <<<<0, NInt(7280000)>>, "constantinople">>, <<<<0, NInt(9069000)>>, "istanbul">>,
  <<<<0, NInt(9200000)>>, "muir_glacier">>, <<<<0, NInt(12244000)>>, "berlin">>, <<<<0, NInt(12965000)>>, "london">>,
  <<<<0, NInt(13773000)>>, "arrow_glacier">>, <<<<0, NInt(15050000)>>, "gray_glacier">>, <<<<0, NInt(15537394)>>, "paris">>,
  <<<<1, H("64373057")>>, "shanghai">>, <<<<1, H("65f1b057")>>, "cancun">>, <<<<1, H("681b3057")>>, "prague">>,
  <<<<2, <<>>>>, "osaka">> >>
NamesOf(s) == Joined([i \in 1..Len(s) |-> s[i][2] \o ":" \o ToString(s[i][1][1]) \o ":" \o Hex(s[i][1][2])])

JTx(j) == ConvTx(j)
JTxs(j) == [i \in 1..Len(j) |-> ConvTx(j[i])]
JWds(j) == [i \in 1..Len(j) |-> [index |-> N(j[i].index), validator |-> N(j[i].validator), addr |-> H(j[i].addr), amount |-> N(j[i].amount)]]
RECURSIVE Tree(_)
Tree(j) == IF j[1] = "s" THEN <<"s", H(j[2])>> ELSE <<"l", [i \in 1..Len(j[2]) |-> Tree(j[2][i])]>>
Digest(b) == Hex(Keccak(b))
Eval(fk, op, a) ==
  CASE op = "compare" -> Compare(Crit(a[1], a[2]), Crit(a[3], a[4]))
    [] op = "met" -> Yes(CritMet(NLt, Crit(a[1], a[2]), N(a[3]), N(a[4])))
    [] op = "discover" -> NamesOf(MainNet)
    [] op = "mainnet" -> MainNet[Active(NLt, [i \in 1..Len(MainNet) |-> MainNet[i][1]], N(a[1]), N(a[2]))][2]
    [] op = "load" -> NamesOf(SortForks(NLt, [i \in 1..Len(a[1]) |-> <<Crit(a[1][i][1], a[1][i][2]), a[1][i][3]>>]))
    [] op = "active" -> ToString(Active(NLt, CritsOf(a[1]), N(a[2]), N(a[3])))
    [] op = "follow" -> LET s == CritsOf(a[1])
                        IN Follow(s, Active(NLt, s, N(a[2]), N(a[3])), N(a[2]), a[4])
    \* functions of the parent
    [] op = "basefee" -> IF GasLimitOk(N(a[1]), N(a[2])) THEN Hex(BaseFee(N(a[2]), N(a[3]), N(a[4]))) ELSE "InvalidBlock"
    [] op = "gaslimit" -> Yes(GasLimitOk(N(a[1]), N(a[2])))
    [] op = "excess" -> Hex(ExcessBlob(fk, NSat(N(a[1])), N(a[2]), N(a[3]), N(a[4])))
    [] op = "blobprice" -> Hex(BlobPrice(fk, N(a[1])))
    [] op = "blobgas" -> NHex(NInt(BlobGas(JTx(a[1]))))
    [] op = "datafee" -> Hex(NMul(NInt(BlobGas(JTx(a[2]))), BlobPrice(fk, N(a[1]))))
    [] op = "difficulty" -> Hex(Difficulty(fk, N(a[1]), N(a[2]), N(a[3]), N(a[4]), a[5] = "true"))
    \* transactions
    [] op = "sender" -> Hex(Sender(fk, JTx(a[2]), N(a[1])))
    [] op = "txhash" -> Hex(TxHash(JTx(a[1])))
    [] op = "encode" -> Hex(EncodeTx(JTx(a[1])))
    [] op = "intrinsic" -> ToString(Intrinsic(fk, JTx(a[1]))) \o " " \o ToString(FloorGas(fk, JTx(a[1])))
    [] op = "valid" -> Yes(StaticReason(fk, JTx(a[1])) = "")
    [] op = "authority" -> Hex(Authority([chainId |-> N(a[1]), addr |-> H(a[2]), nonce |-> N(a[3]), v |-> N(a[4]), r |-> N(a[5]), s |-> N(a[6])]))
    \* addresses, blooms, requests
    [] op = "create" -> Hex(CreateAddress(H(a[1]), N(a[2])))
    [] op = "create2" -> Hex(Create2Address(H(a[1]), H(a[2]), H(a[3])))
    [] op = "bloom" -> Hex(Bloom([i \in 1..Len(a[1]) |-> [a |-> H(a[1][i][1]), t |-> [j \in 1..Len(a[1][i][2]) |-> H(a[1][i][2][j])], d |-> H(a[1][i][3])]]))
    [] op = "requests" -> Hex(RequestsHash([i \in 1..Len(a[1]) |-> H(a[1][i])]))
    [] op = "deposit" -> IF DepositOk(H(a[1])) THEN Hex(DepositData(H(a[1]))) ELSE "InvalidBlock"
    \* header, transactions and the number of zero bytes in the data of each, withdrawals
    [] op = "blocksize" ->
         LET b == ConvIn([txs |-> a[2], ommers |-> <<>>, withdrawals |-> a[4], msg |-> <<>>])
             in == [b EXCEPT !.txs = [i \in 1..Len(b.txs) |-> [b.txs[i] EXCEPT !.data = Zeros(NSat(N(a[3][i])))]]]
         IN Yes(BlockSize(ConvHeader(a[1]), in) <= MaxBlockSize)
    \* proof of work
    [] op = "epoch" -> Hex(Epoch(N(a[1])))
    [] op = "cachelines" -> ToString(CacheLines(NSat(N(a[1]))))
    [] op = "datalines" -> ToString(DataLines(NSat(N(a[1]))))
    [] op = "seed" -> Hex(EthashSeed(NSat(N(a[1]))))
    [] op = "fnv" -> Hex(Fnv(H(a[1]), H(a[2])))
    [] op = "cache" -> Hex(Keccak(EthashCache(NSat(N(a[1])), EthashSeed(NSat(N(a[2]))))))
    [] op = "item" -> Hex(DatasetItem(EthashCache(NSat(N(a[1])), EthashSeed(NSat(N(a[2])))), NSat(N(a[3]))))
    [] op = "hashimoto" -> LET x == Hashimoto(EthashCache(NSat(N(a[1])), EthashSeed(NSat(N(a[2])))), NSat(N(a[3])), H(a[4]), H(a[5]))
                           IN Hex(x[1]) \o " " \o Hex(x[2])
    [] op = "pow" -> LET h == ConvHeader(a[4])       \* cache size, epoch, dataset size
                         x == Hashimoto(EthashCache(NSat(N(a[1])), EthashSeed(NSat(N(a[2])))), NSat(N(a[3])), SealHash(h), h.nonce)
                     IN Yes(ProofOk(x, h.mix, h.difficulty))
    [] op = "powlimit" -> Yes(ProofOk(<<H(a[1]), H(a[2])>>, H(a[3]), N(a[4])))
    [] op = "sealhash" -> Hex(SealHash(ConvHeader(a[1])))
    [] op = "headerhash" -> Hex(HeaderHash(ConvHeader(a[1])))
    \* external forms
    [] op = "decode" -> LET t == Tree(a[2]) IN IF Shaped(ShapeOf(fk, a[1]), t) THEN Digest(TreeRlp(t)) ELSE "no"
    [] op = "typed" -> LET b == H(a[1])
                           t == Tree(a[2])
                       IN IF b # <<>> /\ TypedTxOk(fk, b[1], t) THEN Digest(b \o TreeRlp(t)) ELSE "no"
    [] op = "receipt" -> Digest(H(a[1]) \o TreeRlp(Tree(a[2])))
    [] op = "unreceipt" -> LET b == H(a[1])
                               t == Tree(a[2])
                           IN IF b[1] \in TypesOf(fk) /\ Shaped(ReceiptShape(fk), t) THEN Digest(TreeRlp(t)) ELSE "no"
    [] op = "built" -> LET x == BuiltBlock(ConvHeader(a[1]), {a[2][i] : i \in 1..Len(a[2])}, JTxs(a[3]), ConvHeaders(a[4]), JWds(a[5]), a[6] = "true")
                       IN Digest(x[1]) \o " " \o Hex(x[2])
    [] op = "readheader" -> Hex(HeaderHash(ConvHeader(a[1])))
    [] op = "readtx" -> Digest(EncodeTx(JTx(a[1])))
    [] op = "readblock" -> LET h == ConvHeader(a[1])
                           IN Hex(HeaderHash(h)) \o " " \o Digest(BlockRlp(h, JTxs(a[2]), ConvHeaders(a[3]), JWds(a[4])))
    [] op = "readstate" -> LET w == ConvWorld(a[1]) IN IF fk >= Paris /\ HasEmpty(w) THEN "StateWithEmptyAccount" ELSE Hex(StateRoot(w))
    [] op = "genesis" -> LET w == ConvWorld(a[1])
                             h == GenesisHeader(fk, w, N(a[2]), H(a[3]), N(a[4]), H(a[5]), N(a[6]))
                         IN Hex(StateRoot(w)) \o " " \o Digest(BlockRlp(h, <<>>, <<>>, <<>>)) \o " " \o Hex(N(a[7]))

Report(d) == PrintT(<<"VERDICT", Raw[sc].name, ToString(Len(Raw[sc].rows)), IF d = <<>> THEN <<"ok">> ELSE d>>)
RECURSIVE Mismatch(_, _, _)
Mismatch(fk, rows, i) ==
  IF i > Len(rows) THEN <<>>
  ELSE LET want == Eval(fk, rows[i][1], rows[i][2])
       IN IF want # rows[i][3] THEN <<rows[i][1], "row " \o ToString(i) \o " " \o ToString(rows[i][2]), want, rows[i][3]>>
          ELSE Mismatch(fk, rows, i + 1)
Init == sc \in 1..Len(Raw) /\ v = ""
Next == v = "" /\ sc' = sc /\ v' = "done" /\ Report(Mismatch(Raw[sc].fork, Raw[sc].rows, 1))
Spec == Init /\ [][Next]_vars
=============================================================================
