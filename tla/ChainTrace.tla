----------------------------- MODULE ChainTrace -----------------------------
(***************************************************************************)
(* Trace validation of chains: each scenario starts from a chain of        *)
(* headers and a state, and is a history of blocks offered to the chain    *)
(* and of upgrades to the next fork, as performed by the real code.  A     *)
(* "probe" is a block offered to a copy of the chain.                      *)
(***************************************************************************)
EXTENDS TraceLib, Chain

Raw == JsonDeserialize(IOEnv.SCENARIOS)

Entry1(h, os) == [h |-> h, ommers |-> os, hash |-> HeaderHash(h)]
ConvChain(js) == [i \in 1..Len(js) |-> Entry1(ConvHeader(js[i].h), ConvHeaders(js[i].ommers))]
ConvBody(j) == [ConvIn([j EXCEPT !.ommers = <<>>]) EXCEPT !.ommers = ConvHeaders(j.ommers)]

VARIABLES sc, at, in, fk, ch, m, n, v
vars == <<sc, at, in, fk, ch, m, n, v>>
View == <<sc, n>>

Steps == Raw[sc].steps
ChainId == N(Raw[sc].chainId)
Idle(k, w) == [Machine(k, <<>>, [w EXCEPT !.x = <<>>], <<>>) EXCEPT !.phase = "idle"]

Init ==
  /\ sc \in 1..Len(Raw)
  /\ at = 1 /\ n = 0 /\ v = "" /\ in = <<>>
  /\ fk = Raw[sc].fork
  /\ ch = ConvChain(Raw[sc].blocks)
  /\ m = Idle(Raw[sc].fork, ConvWorld(Raw[sc].pre))

Report(d) == PrintT(<<"VERDICT", Raw[sc].name, ToString(n), IF d = <<>> THEN <<"ok">> ELSE d>>)
Where(d, s) == IF d = <<>> THEN d ELSE <<d[1] \o " (step " \o ToString(at) \o " " \o s.name \o ")">> \o Tail(d)

\* the verdict on an offered block; why: "" or the reason for which the specification rejects it
Verdict(s, why, h, w) ==
  LET e == s.exp
  IN IF e.crash # "" THEN <<"crash", "", why, e.crash>>
     ELSE IF (why # "") # (e.bad # "") THEN <<"validity", "", why, e.bad>>
     ELSE IF why # "" THEN Cmp("head after rejection", Hex(Head1(ch).hash), e.head)
     ELSE FirstOf(<<Cmp("head", Hex(HeaderHash(h)), e.head), DiffState(w, ConvState(e.state))>>)

\* end of a step: verdict d, new world w and chain c
EndStep(d, w, c, f) ==
  IF d # <<>> THEN Report(Where(d, Steps[at])) /\ v' = "done" /\ UNCHANGED <<at, in, fk, ch, m>>
  ELSE IF at = Len(Steps) THEN Report(<<>>) /\ v' = "done" /\ UNCHANGED <<at, in, fk, ch, m>>
  ELSE at' = at + 1 /\ v' = "" /\ in' = <<>> /\ fk' = f /\ ch' = c /\ m' = Idle(f, w)

World0 == m.w
Next ==
  /\ v = ""
  /\ n' = n + 1
  /\ sc' = sc
  /\ LET s == Steps[at]
     IN IF m.phase = "idle" THEN
          IF s.kind = "fork"
          THEN LET w == UpgradeWorld(s.to, m.w)
               IN EndStep(IF s.exp.crash # "" THEN <<"crash", "", "", s.exp.crash>>
                          ELSE FirstOf(<<Cmp("head", Hex(Head1(ch).hash), s.exp.head), DiffState(w, ConvState(s.exp.state))>>),
                          w, ch, s.to)
          ELSE LET h == ConvHeader(s.h)
                   b == ConvBody(s)
                   why == BlockReason(fk, ch, h, b)
               IN IF why # "" THEN EndStep(Verdict(s, why, h, m.w), m.w, ch, fk)
                  ELSE /\ in' = [b |-> b, h |-> h, w |-> m.w]
                       /\ m' = Machine(fk, EnvOf(fk, ch, h, ChainId), m.w, Items(fk, b))
                       /\ UNCHANGED <<at, fk, ch, v>>
        ELSE IF m.phase = "end"
        THEN LET why == CommitReason(m, in.h, in.b)
                 d == Verdict(s, why, in.h, m.w)
             IN IF s.kind = "probe" \/ why # "" THEN EndStep(d, in.w, ch, fk)
                ELSE EndStep(d, m.w, Append(ch, Entry1(in.h, in.b.ommers)), fk)
        ELSE m' = StepBlock(in.b, m) /\ UNCHANGED <<at, in, fk, ch, v>>
Spec == Init /\ [][Next]_vars

Conservation == m.phase = "idle" \/ NAdd(NAdd(Supply(m.w), m.w.x), m.hold) = NAdd(m.supply0, m.mint)
\* the chain is linked, numbered and moves forward in time
Linked == \A k \in 2..Len(ch) :
            k <= Len(Raw[sc].blocks) \/ (ch[k].h.parent = ch[k-1].hash /\ ch[k].h.number = NAdd(ch[k-1].h.number, <<1>>)
                                         /\ NLt(ch[k-1].h.time, ch[k].h.time))
=============================================================================
