----------------------------- MODULE TracerTrace ----------------------------
(***************************************************************************)
(* Validation of what the tracers of the transition tool wrote: the files  *)
(* of one block, or of one run of the tool, with their lines.              *)
(***************************************************************************)
EXTENDS TraceLib, Tracer

Raw == JsonDeserialize(IOEnv.SCENARIOS)
Ins == [i \in 1..Len(Raw) |-> ConvIn(Raw[i])]
PlainOpt == [state |-> FALSE, dao |-> FALSE, reward |-> "fork", ownReward |-> <<>>]
Opt(i) == IF Raw[i].tool THEN [PlainOpt EXCEPT !.state = Raw[i].opt.state] ELSE PlainOpt

VARIABLES sc, x, f, l, cnt, n, v
\* x: [m, acc, rej]; f: file; l: line; cnt: instructions counted since the last change of transaction
vars == <<sc, x, f, l, cnt, n, v>>
View == <<sc, n>>

NoCount == [item |-> [k |-> "", i |-> 0], c |-> EmptyMap]
Init ==
  /\ sc \in 1..Len(Raw)
  /\ LET j == Raw[sc]
         blk == ConvBlk(j.fork, j.blk)
     IN x = [m |-> Machine(j.fork, blk, ConvWorld(j.pre), ToolItems(j.fork, Ins[sc], Opt(sc))), acc |-> <<>>, rej |-> {}]
  /\ f = 1 /\ l = 1 /\ cnt = NoCount /\ n = 0 /\ v = ""

Files == Raw[sc].files
Flags == Raw[sc].flags          \* stack, memory, returndata

----------------------------------------------------------------------------
Digest(b) == Hex(SubSeq(Keccak(b), 1, 4))
StackSeen(m) == IF ~Flags.stack THEN "-" ELSE ToString(Len(m.fr.stk)) \o ":" \o Digest(JoinWords(m.fr.stk))
MemSeen(m) == IF ~Flags.memory \/ m.fr.mem = <<>> THEN "-" ELSE Digest(m.fr.mem)
RetSeen(m) == IF ~Flags.returndata \/ m.fk < Byzantium THEN "-" ELSE Digest(m.fr.ret)

CmpIn(what, a, b) == IF b \in a THEN <<>> ELSE <<what, "", ToString(a), ToString(b)>>
OpLine(m, m2, e) ==
  IF "line" \notin DOMAIN e THEN <<"line", "", LineName(m), ToString(e)>>
  ELSE LET costs == LineCost(m, m2)
       IN FirstOf(<<Cmp("format", "", e.bad), Cmp("depth", m.fr.depth + 1, e.depth), Cmp("pc", m.fr.pc, e.pc), Cmp("op", LineOp(m), e.op),
                    Cmp("name", LineName(m), e.name), Cmp("gas", m.fr.gas, e.gas), Cmp("memory size", Len(m.fr.mem), e.memSize),
                    Cmp("stack", StackSeen(m), e.stack), Cmp("memory", MemSeen(m), e.memory), Cmp("return data", RetSeen(m), e.ret),
                    CmpIn("refund", LineRefund(m, m2), e.refund),
                    IF costs = AnyCost THEN <<>>
                    ELSE CmpIn("cost", {IF Len(c) > 8 THEN "-" ELSE Hex(c) : c \in costs}, e.cost),
                    Cmp("error", LineFails(m, m2), e.error)>>)
EndLine(m, e) ==
  LET fr == Settle(m).fr
      \* before there was return data, a failed deposit may still show the code
      outs == {Hex(fr.out)} \cup (IF m.fk < Byzantium /\ m.fr.kind = "create" /\ IsErr(fr) THEN {Hex(m.fr.out)} ELSE {})
  IN IF "output" \notin DOMAIN e THEN <<"line", "", "end", ToString(e)>>
     ELSE FirstOf(<<Cmp("format", "", e.bad), CmpIn("output", outs, e.output),
                    Cmp("gas used", fr.gas0 - fr.gas, e.gasUsed), Cmp("final error", IsErr(fr), e.error)>>)
FileName(m) ==
  IF ~Raw[sc].named THEN ""
  ELSE "trace-" \o ToString(Len(m.out.receipts)) \o "-0x" \o Hex(TxHash(Ins[sc].txs[m.item.i])) \o ".jsonl"

HasLine(k) == f <= Len(Files) /\ k <= Len(Files[f].lines)
Tx(m) == m.phase = "run" /\ m.item.k = "tx"
Check(m, m2) ==
  IF Tx(m) /\ Cause(m) # ""
  THEN IF ~HasLine(l) THEN <<"line", "missing", LineName(m), ToString(m.fr.pc)>> ELSE OpLine(m, m2, Files[f].lines[l])
  ELSE IF Ended(m) /\ Ran(m)
  THEN IF ~HasLine(l) THEN <<"end", "missing">>
       ELSE FirstOf(<<EndLine(m, Files[f].lines[l]), Cmp("lines", l, Len(Files[f].lines)), Cmp("file", FileName(m), Files[f].name)>>)
  ELSE <<>>

Counts == [k \in DOMAIN Raw[sc].counts |-> Raw[sc].counts[k]]
Outcome(m) ==
  LET e == Raw[sc].exp
  IN IF e.crash # "" THEN <<"crash", "", m.out.bad, e.crash>>
     ELSE IF (m.out.bad # "") # (e.bad # "") THEN <<"validity", "", m.out.bad, e.bad>>
     ELSE FirstOf(<<Cmp("number of files", f - 1, Len(Files)),
                    Cmp("outcome without tracers", Raw[sc].plain, Raw[sc].traced),
                    CmpIn("counts", {{<<k, cnt.c[k]>> : k \in DOMAIN cnt.c}}, {<<k[1], k[2]>> : k \in {Raw[sc].counts[i] : i \in 1..Len(Raw[sc].counts)}})>>)

Report(d) == PrintT(<<"VERDICT", Raw[sc].name, ToString(n), IF d = <<>> THEN <<"ok">> ELSE d>>)
Count(m) ==
  IF Cause(m) # "op" THEN cnt
  ELSE LET c == IF cnt.item = m.item THEN cnt.c ELSE EmptyMap
           nm == LineName(m)
       IN [item |-> m.item, c |-> Put(c, nm, 1 + (IF nm \in DOMAIN c THEN c[nm] ELSE 0))]
Next ==
  /\ v = ""
  /\ n' = n + 1
  /\ sc' = sc
  /\ IF x.m.phase = "end" THEN Report(Outcome(x.m)) /\ v' = "done" /\ UNCHANGED <<x, f, l, cnt>>
     ELSE LET x2 == ToolStep(Ins[sc], Opt(sc), x)
              y == IF Raw[sc].tool THEN x2 ELSE [x EXCEPT !.m = StepBlock(Ins[sc], x.m)]
              d == Check(x.m, y.m)
          IN IF d # <<>> THEN Report(d) /\ v' = "done" /\ UNCHANGED <<x, f, l, cnt>>
             ELSE /\ x' = y
                  /\ cnt' = Count(x.m)
                  /\ f' = IF Ended(x.m) /\ Ran(x.m) THEN f + 1 ELSE f
                  /\ l' = IF Ended(x.m) /\ Ran(x.m) THEN 1 ELSE IF Tx(x.m) /\ Cause(x.m) # "" THEN l + 1 ELSE l
                  /\ v' = v
Spec == Init /\ [][Next]_vars

Conservation == NAdd(NAdd(Supply(x.m.w), x.m.w.x), x.m.hold) = NAdd(x.m.supply0, x.m.mint)
=============================================================================
