------------------------------ MODULE EVMTrace ------------------------------
(***************************************************************************)
(* Trace validation.  Each scenario is a block executed by the real code,  *)
(* with what it was observed to do: the instructions it executed, and the  *)
(* outcome.  Block.tla is run on the same input, one step at a time, and   *)
(* every step that executes an instruction must match the next recorded    *)
(* event; at the end the outcomes must agree.                              *)
(*                                                                         *)
(* Next is deterministic, so the state graph is one path per scenario;     *)
(* <<sc, n>> identifies a state (VIEW).  A disagreement is printed and     *)
(* ends the path.                                                          *)
(***************************************************************************)
EXTENDS TraceLib

Raw == JsonDeserialize(IOEnv.SCENARIOS)
Ins == [i \in 1..Len(Raw) |-> ConvIn(Raw[i])]

VARIABLES sc, m, l, n, v
vars == <<sc, m, l, n, v>>
View == <<sc, n>>

----------------------------------------------------------------------------
(* One recorded instruction:                                               *)
(* <<pc, op, gas, depth, stack size, memory size, return data size, refund *)
(*   counter, top three stack items, digest of stack and memory>>          *)
TopHex(fr, i) == IF Len(fr.stk) > i THEN Hex(Top(fr, i)) ELSE "-"
Digest(stk, mem) ==    \* of the upper 32 words of the stack
  LET k == Len(stk)
  IN Hex(SubSeq(Keccak(JoinWords(SubSeq(stk, IF k > 32 THEN k - 31 ELSE 1, k)) \o mem), 1, 4))
Field(fr, op, i) ==
  CASE i = 1 -> fr.pc [] i = 2 -> op [] i = 3 -> fr.gas [] i = 4 -> fr.depth
    [] i = 5 -> Len(fr.stk) [] i = 6 -> Len(fr.mem) [] i = 7 -> IF Raw[sc].fork < Byzantium THEN 0 ELSE Len(fr.ret) [] i = 8 -> fr.refund
    [] i \in 9..11 -> TopHex(fr, i - 9)
    [] i = 12 -> Digest(fr.stk, fr.mem)
FieldName == <<"pc", "op", "gas", "depth", "stack size", "memory size", "return data size", "refund",
               "stack", "stack", "stack", "stack or memory">>
\* order in which disagreements are named
FieldOrder == <<4, 1, 2, 5, 9, 10, 11, 7, 6, 12, 8, 3>>
RECURSIVE FirstDiff(_, _, _, _)
FirstDiff(fr, op, ev, i) ==
  IF i > 12 THEN 0
  ELSE IF Field(fr, op, FieldOrder[i]) # ev[FieldOrder[i]] THEN FieldOrder[i]
  ELSE FirstDiff(fr, op, ev, i + 1)

\* the instruction about to be executed in machine x, -1 if none is
NextOp(x) == IF Upcoming(x) = "op" THEN x.fr.code[x.fr.pc + 1] ELSE -1

Trace == Raw[sc].trace
\* only the beginning of a long execution was recorded, and it has been seen
Cut(k) == "cut" \in DOMAIN Raw[sc] /\ k > Len(Trace)
CheckOp(x, k) ==      \* "" or the disagreement
  LET op == NextOp(x)
  IN IF op = -1 \/ ~Raw[sc].traced THEN <<>>
     ELSE IF k > Len(Trace) THEN <<"op", "not executed", ToString(op), ToString(x.fr.pc)>>
     ELSE LET d == FirstDiff(x.fr, op, Trace[k], 1)
          IN IF d = 0 THEN <<>>
             ELSE <<FieldName[d], ToString(op), ToString(Field(x.fr, op, d)), ToString(Trace[k][d])>>

----------------------------------------------------------------------------
(* Outcome *)
MsgOutcome(x, e) ==
  LET fr == x.fr
      err == IsErr(fr)
  IN FirstOf(<<Cmp("failed", err, e.err), Cmp("gas left", fr.gas, e.gas),
               Cmp("output", Hex(fr.out), e.out),
               Cmp("logs", IF err THEN <<>> ELSE [i \in 1..Len(fr.logs) |-> Hex(LogRlp(fr.logs[i]))], e.logs),
               DiffState(x.w, ConvState(e.state))>>)
BlockOutcome(x, e) ==
  LET fk == x.fk
      rs == [i \in 1..Len(x.out.receipts) |-> ReceiptRlp(fk, x.out.receipts[i])]
      in == Ins[sc]
      logs == AllLogs(x)
  IN FirstOf(<<
       IF "nostate" \in DOMAIN Raw[sc] THEN <<>> ELSE DiffState(x.w, ConvState(e.state)),
       Cmp("gas used", x.out.gas, e.gas), Cmp("blob gas used", x.out.blobGas, e.blobGas),
       Cmp("receipts", [i \in 1..Len(rs) |-> Hex(rs[i])], e.receipts),
       Cmp("requests", [i \in 1..Len(x.out.requests) |-> Hex(x.out.requests[i])], e.requests),
       Cmp("state root", Hex(StateRoot(x.w)), e.stateRoot),
       Cmp("receipts root", Hex(ListRoot(rs)), e.receiptsRoot),
       Cmp("transactions root", Hex(ListRoot([i \in 1..Len(in.txs) |-> EncodeTx(in.txs[i])])), e.txRoot),
       Cmp("bloom", Hex(Bloom(logs)), e.bloom),
       IF fk < Shanghai THEN <<>>
       ELSE Cmp("withdrawals root", Hex(ListRoot([i \in 1..Len(in.withdrawals) |-> WithdrawalRlp(in.withdrawals[i])])),
                e.withdrawalsRoot),
       IF fk < Prague THEN <<>> ELSE Cmp("requests hash", Hex(RequestsHash(x.out.requests)), e.requestsHash)>>)
Outcome(x, k) ==
  LET e == Raw[sc].exp
  IN IF e.crash # "" THEN <<"crash", "", x.out.bad, e.crash>>
     ELSE IF (x.out.bad # "") # (e.bad # "") THEN <<"validity", "", x.out.bad, e.bad>>
     ELSE IF Raw[sc].traced /\ k <= Len(Trace)
     THEN <<"op", "unexpected", "", ToString(Trace[k])>>
     ELSE IF x.out.bad # "" THEN <<>>
     ELSE IF Ins[sc].msg # <<>> THEN MsgOutcome(x, e)
     ELSE BlockOutcome(x, e)

----------------------------------------------------------------------------
Init ==
  /\ sc \in 1..Len(Raw)
  /\ LET j == Raw[sc]
         blk == ConvBlk(j.fork, j.blk)
         w == ConvWorld(j.pre)
         todo == IF Len(j.msg) > 0 THEN <<[k |-> "msg", i |-> 0]>> ELSE Items(j.fork, Ins[sc])
     IN m = Machine(j.fork, blk, w, todo)
  /\ l = 1 /\ n = 0 /\ v = ""

Report(d) == PrintT(<<"VERDICT", Raw[sc].name, ToString(n), IF d = <<>> THEN <<"ok">> ELSE d>>)
Next ==
  /\ v = ""
  /\ n' = n + 1
  /\ sc' = sc
  /\ IF Cut(l) THEN Report(<<>>) /\ v' = "done" /\ UNCHANGED <<m, l>>
     ELSE IF m.phase = "end"
     THEN LET d == Outcome(m, l)
          IN Report(d) /\ v' = "done" /\ UNCHANGED <<m, l>>
     ELSE LET d == CheckOp(m, l)
          IN IF d # <<>> THEN Report(d) /\ v' = "done" /\ UNCHANGED <<m, l>>
             ELSE /\ m' = StepBlock(Ins[sc], m)
                  /\ l' = IF NextOp(m) = -1 THEN l ELSE l + 1
                  /\ v' = v
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Invariants of the specification, checked along every validated trace *)
Conservation ==
  NAdd(NAdd(Supply(m.w), m.w.x), m.hold) = NAdd(m.supply0, m.mint)
GasBound == m.fr.kind = "none" \/ (m.fr.gas >= 0 /\ (m.st = <<>> => m.fr.gas <= m.fr.gas0))
StaticPure ==    \* inside a static frame the world is what it was when the frame began
  \A i \in 1..Len(m.st) :
    (m.st[i].static /\ i > 1 /\ m.st[i].kind = "call" /\ m.fk >= Byzantium)
      => /\ m.w.s = m.st[i].snap.s /\ m.w.t = m.st[i].snap.t
         /\ \A a \in DOMAIN m.w.a : Alive(m.w, a) => a \in DOMAIN m.st[i].snap.a /\ m.w.a[a] = m.st[i].snap.a[a]
StackBound == m.fr.kind = "none" \/ Len(m.fr.stk) <= 1024
DepthBound == m.fr.kind = "none" \/ m.fr.depth <= 1024
=============================================================================
