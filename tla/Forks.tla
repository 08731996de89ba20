-------------------------------- MODULE Forks -------------------------------
(***************************************************************************)
(* The forks, and everything that is a table indexed by fork.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Word

Frontier == 0        Homestead == 1       DaoFork == 2       Tangerine == 3
Spurious == 4        Byzantium == 5       Constantinople == 6 Istanbul == 7
MuirGlacier == 8     Berlin == 9          London == 10       ArrowGlacier == 11
GrayGlacier == 12    Paris == 13          Shanghai == 14     Cancun == 15
Prague == 16         Osaka == 17
AllForks == 0..17
ForkNames == <<"frontier", "homestead", "dao_fork", "tangerine_whistle",
  "spurious_dragon", "byzantium", "constantinople", "istanbul", "muir_glacier",
  "berlin", "london", "arrow_glacier", "gray_glacier", "paris", "shanghai",
  "cancun", "prague", "osaka">>

\* the value from the latest fork in a list of <<fork, value>> not after fk
Since(fk, list) ==
  LET RECURSIVE F(_)
      F(i) == IF list[i][1] <= fk THEN list[i][2] ELSE F(i - 1)
  IN F(Len(list))

----------------------------------------------------------------------------
(* Instruction table.  Each entry: first fork, items popped, items pushed, *)
(* constant part of the gas price.                                         *)
I(fk, i, o, g) == [fork |-> fk, i |-> i, o |-> o, g |-> g]
None == I(99, 0, 0, 0)
Entry(fk, op) ==
  CASE op = 0 -> I(0, 0, 0, 0)                              \* STOP
    [] op \in {1, 3} -> I(0, 2, 1, 3)                       \* ADD SUB
    [] op \in {2, 4, 5, 6, 7} -> I(0, 2, 1, 5)              \* MUL DIV SDIV MOD SMOD
    [] op \in {8, 9} -> I(0, 3, 1, 8)                       \* ADDMOD MULMOD
    [] op = 10 -> I(0, 2, 1, 10)                            \* EXP
    [] op = 11 -> I(0, 2, 1, 5)                             \* SIGNEXTEND
    [] op \in 16..20 -> I(0, 2, 1, 3)                       \* LT GT SLT SGT EQ
    [] op = 21 -> I(0, 1, 1, 3)                             \* ISZERO
    [] op \in 22..24 -> I(0, 2, 1, 3)                       \* AND OR XOR
    [] op = 25 -> I(0, 1, 1, 3)                             \* NOT
    [] op = 26 -> I(0, 2, 1, 3)                             \* BYTE
    [] op \in 27..29 -> I(Constantinople, 2, 1, 3)          \* SHL SHR SAR
    [] op = 30 -> I(Osaka, 1, 1, 5)                         \* CLZ
    [] op = 32 -> I(0, 2, 1, 30)                            \* KECCAK256
    [] op = 48 -> I(0, 0, 1, 2)                             \* ADDRESS
    [] op = 49 -> I(0, 1, 1, Since(fk, <<<<0, 20>>, <<Tangerine, 400>>, <<Istanbul, 700>>, <<Berlin, 0>>>>))
    [] op \in {50, 51, 52} -> I(0, 0, 1, 2)                 \* ORIGIN CALLER CALLVALUE
    [] op = 53 -> I(0, 1, 1, 3)                             \* CALLDATALOAD
    [] op = 54 -> I(0, 0, 1, 2)                             \* CALLDATASIZE
    [] op = 55 -> I(0, 3, 0, 3)                             \* CALLDATACOPY
    [] op = 56 -> I(0, 0, 1, 2)                             \* CODESIZE
    [] op = 57 -> I(0, 3, 0, 3)                             \* CODECOPY
    [] op = 58 -> I(0, 0, 1, 2)                             \* GASPRICE
    [] op = 59 -> I(0, 1, 1, Since(fk, <<<<0, 20>>, <<Tangerine, 700>>, <<Berlin, 0>>>>))  \* EXTCODESIZE
    [] op = 60 -> I(0, 4, 0, Since(fk, <<<<0, 20>>, <<Tangerine, 700>>, <<Berlin, 0>>>>))  \* EXTCODECOPY
    [] op = 61 -> I(Byzantium, 0, 1, 2)                     \* RETURNDATASIZE
    [] op = 62 -> I(Byzantium, 3, 0, 3)                     \* RETURNDATACOPY
    [] op = 63 -> I(Constantinople, 1, 1, Since(fk, <<<<0, 400>>, <<Istanbul, 700>>, <<Berlin, 0>>>>)) \* EXTCODEHASH
    [] op = 64 -> I(0, 1, 1, 20)                            \* BLOCKHASH
    [] op \in 65..69 -> I(0, 0, 1, 2)                       \* COINBASE .. GASLIMIT
    [] op = 70 -> I(Istanbul, 0, 1, 2)                      \* CHAINID
    [] op = 71 -> I(Istanbul, 0, 1, 5)                      \* SELFBALANCE
    [] op = 72 -> I(London, 0, 1, 2)                        \* BASEFEE
    [] op = 73 -> I(Cancun, 1, 1, 3)                        \* BLOBHASH
    [] op = 74 -> I(Cancun, 0, 1, 2)                        \* BLOBBASEFEE
    [] op = 80 -> I(0, 1, 0, 2)                             \* POP
    [] op = 81 -> I(0, 1, 1, 3)                             \* MLOAD
    [] op \in {82, 83} -> I(0, 2, 0, 3)                     \* MSTORE MSTORE8
    [] op = 84 -> I(0, 1, 1, Since(fk, <<<<0, 50>>, <<Tangerine, 200>>, <<Istanbul, 800>>, <<Berlin, 0>>>>)) \* SLOAD
    [] op = 85 -> I(0, 2, 0, 0)                             \* SSTORE
    [] op = 86 -> I(0, 1, 0, 8)                             \* JUMP
    [] op = 87 -> I(0, 2, 0, 10)                            \* JUMPI
    [] op \in 88..90 -> I(0, 0, 1, 2)                       \* PC MSIZE GAS
    [] op = 91 -> I(0, 0, 0, 1)                             \* JUMPDEST
    [] op = 92 -> I(Cancun, 1, 1, 100)                      \* TLOAD
    [] op = 93 -> I(Cancun, 2, 0, 100)                      \* TSTORE
    [] op = 94 -> I(Cancun, 3, 0, 3)                        \* MCOPY
    [] op = 95 -> I(Shanghai, 0, 1, 2)                      \* PUSH0
    [] op \in 96..127 -> I(0, 0, 1, 3)                      \* PUSH1..32
    [] op \in 128..143 -> I(0, op - 127, op - 126, 3)       \* DUP
    [] op \in 144..159 -> I(0, op - 142, op - 142, 3)       \* SWAP
    [] op \in 160..164 -> I(0, op - 158, 0, 375 * (op - 159))  \* LOG
    [] op = 240 -> I(0, 3, 1, 32000)                        \* CREATE
    [] op \in {241, 242} -> I(0, 7, 1, Since(fk, <<<<0, 40>>, <<Tangerine, 700>>, <<Berlin, 0>>>>)) \* CALL CALLCODE
    [] op = 243 -> I(0, 2, 0, 0)                            \* RETURN
    [] op = 244 -> I(Homestead, 6, 1, Since(fk, <<<<0, 40>>, <<Tangerine, 700>>, <<Berlin, 0>>>>)) \* DELEGATECALL
    [] op = 245 -> I(Constantinople, 4, 1, 32000)           \* CREATE2
    [] op = 250 -> I(Byzantium, 6, 1, Since(fk, <<<<0, 700>>, <<Berlin, 0>>>>))   \* STATICCALL
    [] op = 253 -> I(Byzantium, 2, 0, 0)                    \* REVERT
    [] op = 255 -> I(0, 1, 0, Since(fk, <<<<0, 0>>, <<Tangerine, 5000>>>>))       \* SELFDESTRUCT
    [] OTHER -> None

\* OpTable[fk + 1][op + 1]; undefined instructions have i = -1
OpTable == [k \in 1..18 |-> [o \in 1..256 |->
              LET e == Entry(k - 1, o - 1)
              IN [def |-> e.fork <= k - 1, i |-> e.i, o |-> e.o, g |-> e.g]]]

----------------------------------------------------------------------------
(* Precompiles: <<address as a small integer, first fork>>                 *)
PrecompileFork(n) ==
  CASE n \in 1..4 -> Frontier
    [] n \in 5..8 -> Byzantium
    [] n = 9 -> Istanbul
    [] n = 10 -> Cancun
    [] n \in 11..17 -> Prague
    [] n = 256 -> Osaka
    [] OTHER -> 99
\* 0 if the 20-byte address is not a precompile of the fork
PrecompileOf(fk, addr) ==
  LET w == NNorm(addr)
      n == IF Len(w) > 2 THEN 0 ELSE NSat(w)
  IN IF n > 0 /\ PrecompileFork(n) <= fk THEN n ELSE 0
PrecompileAddrs == [k \in 1..18 |->
  {Pad(NInt(n), 20) : n \in {j \in (1..17) \cup {256} : PrecompileFork(j) <= k - 1}}]

----------------------------------------------------------------------------
(* Scalars *)
MaxCodeSize(fk) == IF fk >= Spurious THEN 24576 ELSE MaxInt
MaxInitCode(fk) == IF fk >= Shanghai THEN 49152 ELSE MaxInt
ExpByte(fk) == IF fk >= Spurious THEN 50 ELSE 10
RefundQuotient(fk) == IF fk >= London THEN 5 ELSE 2
ClearRefund(fk) == IF fk >= London THEN 4800 ELSE 15000
DestructRefund(fk) == IF fk >= London THEN 0 ELSE 24000
SloadGas(fk) == Since(fk, <<<<0, 50>>, <<Tangerine, 200>>, <<Istanbul, 800>>, <<Berlin, 100>>>>)
ColdSload == 2100
ColdAccount == 2600
WarmAccess == 100
TxTypeFork(t) == CASE t = 0 -> Frontier [] t = 1 -> Berlin [] t = 2 -> London
                   [] t = 3 -> Cancun [] t = 4 -> Prague [] OTHER -> 99
IsPoS(fk) == fk >= Paris
BlobFraction(fk) == IF fk >= Prague THEN 5007716 ELSE 3338477
BlobTarget(fk) == IF fk >= Prague THEN 6 ELSE 3
BlobMax(fk) == IF fk >= Prague THEN 9 ELSE 6
=============================================================================
