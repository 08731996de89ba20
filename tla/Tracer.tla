------------------------------- MODULE Tracer -------------------------------
(***************************************************************************)
(* What a trace of execution reports (EIP-3155): one line for every        *)
(* instruction that the code of a transaction executes, or fails to        *)
(* execute, or runs into beyond its end, and one line when the outermost   *)
(* frame has ended.  Lines are functions of the machine of Block.tla       *)
(* before and after the step.                                              *)
(***************************************************************************)
EXTENDS Tool

Range(p, from) == [i \in 0..31 |-> p \o ToString(i + from)]
Pushes == Range("PUSH", 1)
Dup == Range("DUP", 1)
Swap == Range("SWAP", 1)
Log == Range("LOG", 0)
Names1 == <<"ADD", "MUL", "SUB", "DIV", "SDIV", "MOD", "SMOD", "ADDMOD", "MULMOD", "EXP", "SIGNEXTEND">>
Names16 == <<"LT", "GT", "SLT", "SGT", "EQ", "ISZERO", "AND", "OR", "XOR", "NOT", "BYTE", "SHL", "SHR", "SAR", "CLZ">>
Names48 == <<"ADDRESS", "BALANCE", "ORIGIN", "CALLER", "CALLVALUE", "CALLDATALOAD", "CALLDATASIZE", "CALLDATACOPY",
             "CODESIZE", "CODECOPY", "GASPRICE", "EXTCODESIZE", "EXTCODECOPY", "RETURNDATASIZE", "RETURNDATACOPY",
             "EXTCODEHASH", "BLOCKHASH", "COINBASE", "TIMESTAMP", "NUMBER", "DIFFICULTY", "GASLIMIT", "CHAINID",
             "SELFBALANCE", "BASEFEE", "BLOBHASH", "BLOBBASEFEE">>
Names80 == <<"POP", "MLOAD", "MSTORE", "MSTORE8", "SLOAD", "SSTORE", "JUMP", "JUMPI", "PC", "MSIZE", "GAS", "JUMPDEST",
             "TLOAD", "TSTORE", "MCOPY", "PUSH0">>
OpName(fk, op) ==
  CASE op = 0 -> "STOP"
    [] op \in 1..11 -> Names1[op]
    [] op \in 16..30 -> Names16[op - 15]
    [] op = 32 -> "KECCAK"
    [] op = 68 /\ fk >= Paris -> "PREVRANDAO"
    [] op \in 48..74 -> Names48[op - 47]
    [] op \in 80..95 -> Names80[op - 79]
    [] op \in 96..127 -> Pushes[op - 96]
    [] op \in 128..143 -> Dup[op - 128]
    [] op \in 144..159 -> Swap[op - 144]
    [] op \in 160..164 -> Log[op - 160]
    [] op = 240 -> "CREATE" [] op = 241 -> "CALL" [] op = 242 -> "CALLCODE" [] op = 243 -> "RETURN"
    [] op = 244 -> "DELEGATECALL" [] op = 245 -> "CREATE2" [] op = 250 -> "STATICCALL" [] op = 253 -> "REVERT"
    [] op = 255 -> "SELFDESTRUCT"

\* refunds collected by all frames
RECURSIVE RefundOf(_)
RefundOf(st) == IF st = <<>> THEN 0 ELSE st[1].refund + RefundOf(Tail(st))
AllRefund(m) == RefundOf(m.st) + m.fr.refund

\* the step from m to m2 is an instruction that failed
FailedStep(m, m2) == Len(m2.st) = Len(m.st) /\ IsErr(m2.fr)

(* The price that is reported, as a set of naturals; <<-1>> stands for     *)
(* any.  An instruction that succeeds reports its price; one that fails    *)
(* for want of gas alone reports the price it asked for; one that fails    *)
(* for another reason may have been charged or not.                        *)
AnyCost == {<<-1>>}
CallCost(m, fr, op, nm) ==
  LET g == OpTable[m.fk + 1][op + 1].g
      memGas == MemCost(nm) - MemCost(Len(fr.mem))
      p == CallPlan(m, fr, op, g, memGas)
  IN IF p.ok THEN NInt(p.cost)
     ELSE NAdd(Top(fr, 0), NInt(p.cost - (IF m.fk < Tangerine THEN NSat(Top(fr, 0)) ELSE 0)))
Elsewise(m, fr, op) ==     \* may fail for a reason other than gas
  \/ fr.static
  \/ op = 62
  \/ op \in {240, 245} /\ NSat(Top(fr, 2)) > MaxInitCode(m.fk)
  \/ op \in {86, 87}
Dynamic == {10, 32, 49, 55, 57, 59, 60, 62, 63, 81, 82, 83, 84, 85, 94} \cup 160..164 \cup 240..255
Sentry(m, fr, op) == op = 85 /\ m.fk >= Istanbul /\ fr.gas <= 2300
Cost(m, m2) ==
  LET fr == m.fr
      op == fr.code[fr.pc + 1]
      e == OpTable[m.fk + 1][op + 1]
  IN IF ~StackOk(fr, e) THEN (IF op \in Dynamic THEN AnyCost ELSE {<<>>, NInt(e.g)})
     ELSE LET nm == NewMem(fr, op)
          IN IF nm = -1 THEN AnyCost
             ELSE IF Sentry(m, fr, op) THEN AnyCost
             ELSE LET p == IF IsCallOp(op) THEN CallCost(m, fr, op, nm) ELSE NInt(OpGas(m, fr, op, nm))
                  IN IF FailedStep(m, m2) /\ Elsewise(m, fr, op) THEN {<<>>, p} ELSE {p}

(* One line: what is asked of each of its fields *)
Cause(m) == Upcoming(m)                       \* "" when there is no line
LineOp(m) == IF Cause(m) = "stop" THEN 0 ELSE m.fr.code[m.fr.pc + 1]
LineName(m) == IF Cause(m) = "invalid" THEN "InvalidOpcode" ELSE OpName(m.fk, LineOp(m))
LineCost(m, m2) == IF Cause(m) = "op" THEN Cost(m, m2) ELSE {<<>>}
LineFails(m, m2) == Cause(m) = "invalid" \/ (Cause(m) = "op" /\ FailedStep(m, m2))
\* the refund before the instruction, or after it if the instruction itself
\* changes it (or would have, had it not failed)
LineRefund(m, m2) ==
  LET b == AllRefund(m)
  IN {b} \cup (IF Cause(m) # "op" THEN {}
               ELSE IF ~FailedStep(m, m2) THEN (IF LineOp(m) \in {85, 255} THEN {AllRefund(m2)} ELSE {})
               ELSE IF LineOp(m) = 85 /\ Len(m.fr.stk) > 1 THEN {b + SstoreCost(m, m.fr)[2]}
               ELSE IF LineOp(m) = 255 THEN {b + DestructRefund(m.fk)} ELSE {})

\* a transaction's outermost frame has ended (and there was one)
Ended(m) == m.phase = "run" /\ m.out.bad = "" /\ m.item.k = "tx" /\ m.fr.done # "" /\ m.st = <<>>
Ran(m) == ~(m.fr.kind = "create" /\ m.crtd = {})       \* not a collision of addresses
=============================================================================
