------------------------------ MODULE SyncTrace -----------------------------
(***************************************************************************)
(* Trace validation of the tool that follows a provider: each scenario is  *)
(* a chain and some runs of the real tool over it, with what it was seen   *)
(* to do.  What it saves, and when, is not seen: only that a later run     *)
(* starts from something that it may have saved.                           *)
(***************************************************************************)
EXTENDS TraceLib, Sync

Raw == JsonDeserialize(IOEnv.SCENARIOS)

Pairs(j) == [i \in 1..Len(j) |-> <<<<j[i][1], N(j[i][2])>>, j[i][3]>>]
\* a later fork with the criterion of an earlier one takes its place
RECURSIVE Collapse(_, _)
Collapse(ps, acc) ==
  IF ps = <<>> THEN acc
  ELSE LET same == {i \in 1..Len(acc) : acc[i][1] = ps[1][1]}
       IN Collapse(Tail(ps), IF same = {} THEN Append(acc, ps[1]) ELSE [acc EXCEPT ![CHOOSE i \in same : TRUE] = ps[1]])
Conf(j) ==
  [sched |-> SortForks(NLt, IF j.collapse THEN Collapse(Pairs(j.pairs), <<>>) ELSE Pairs(j.pairs)),
   genesis |-> N(j.genesis), kept |-> 255, limit |-> j.limit, stop |-> 0,
   blocks |-> [i \in 1..Len(j.chain) |-> [num |-> j.chain[i].num, time |-> N(j.chain[i].time), id |-> j.chain[i].id,
                                          bad |-> j.chain[i].bad, gas |-> j.chain[i].gas]]]
Confs == [i \in 1..Len(Raw) |-> Conf(Raw[i])]
NoClient == [num |-> -1]

VARIABLES sc, r, e, s, dbs, v
vars == <<sc, r, e, s, dbs, v>>

Run == Raw[sc].runs[r]
Ev == Run.events[e]
C == [Confs[sc] EXCEPT !.stop = Run.stop]
Fork(i) == C.sched[i][2]

Init ==
  /\ sc \in 1..Len(Raw)
  /\ r = 1 /\ e = 1 /\ v = <<>>
  /\ s = NoClient
  /\ dbs = [d \in 0..2 |-> [min |-> 0, max |-> 0]]

\* what this run may start from
From == IF Run.db = 0 \/ Run.reset THEN [min |-> 0, max |-> 0]
        ELSE IF dbs[Run.db].max = 0 /\ Run.base # 0 THEN dbs[Run.base] ELSE dbs[Run.db]
StartOk(n) == From.min <= n /\ n <= From.max /\ SavedEnough(C, n, From.max)
\* whether the history after a start is one block short (see known_findings.txt)
LoOf(n, b) == IF n > 0 /\ Oldest(C, n) = 0 /\ ~("early" \in DOMAIN Raw[sc]) THEN {0, 1} ELSE {Oldest(C, n)}
HistoryDiff(lo, ev) ==
  FirstOf(<<IF ev.lo \in lo THEN <<>>
            ELSE IF lo = {0} /\ ev.lo = 1 /\ ev.hi > 0 /\ e = 1 THEN <<"first block missing after a restart", "", "0", "1">>
            ELSE <<"history begins", "", ToString(lo), ToString(ev.lo)>>,
            Cmp("history", "", ev.gaps)>>)
Real == Raw[sc].real

StartDiff ==
  IF ~StartOk(Ev.n) THEN <<"started from", ToString(Ev.n), ToString(From), ToString(Ev.n)>>
  ELSE LET b == Boot(NLt, NInt, C, Ev.n)
       IN FirstOf(<<
         Cmp("fork at the start", Fork(b.at), Ev.fork),
         HistoryDiff(LoOf(Ev.n, TRUE), Ev),
         Cmp("history ends", Ev.n, Ev.hi),
         Cmp("forks of the history", [i \in 1..Len(Ev.forms) |-> IF Ev.lo + i - 1 = 0 THEN -2 ELSE Fork(ForkAt(NLt, NInt, C, Ev.lo + i - 1))], Ev.forms),
         Cmp("blocks of the history", "", Ev.unlike),
         IF Real THEN <<>> ELSE Cmp("state at the start", b.mark, Ev.mark),
         Cmp("chain id", Hex(N(Raw[sc].chainId)), Hex(N(Ev.chain)))>>)

Lows == IF s.first > 0 /\ s.lo = 0 /\ ~("early" \in DOMAIN Raw[sc]) THEN {s.lo, s.lo + 1} ELSE {s.lo}
\* what must come next, given what came before
Wanted ==
  IF s.ended THEN "error"
  ELSE IF HasNext(C, s)
       THEN IF MustApply(NLt, NInt, C, s) THEN "apply" ELSE IF Misplaced(C, s) THEN "error" ELSE "block"
       ELSE "return"
BlockDiff ==
  LET b == C.blocks[s.num + 1]
      f == Fork(NextAt(NLt, NInt, C, s))
  IN FirstOf(<<
    Cmp("block", b.id, Ev.id),
    Cmp("fork that judges", f, Ev.fork),
    Cmp("fork that reads", f, Ev.form),
    Cmp("as read from the provider", "", Ev.unlike),
    HistoryDiff(Lows, Ev),
    Cmp("history ends", s.num, Ev.hi),
    IF Real THEN <<>> ELSE Cmp("state before", s.mark, Ev.mark)>>)
\* the process may be ended from outside at any moment
Diff ==
  CASE Ev.k = "killed" -> <<>>
    [] e = 1 -> IF Ev.k = "start" THEN StartDiff ELSE <<"start", "", "start", ToString(Ev)>>
    [] Ev.k # Wanted -> <<"next", ToString(s.num), Wanted, ToString(Ev)>>
    [] Ev.k = "apply" -> Cmp("fork applied", Fork(NextAt(NLt, NInt, C, s)), Ev.fork)
    [] Ev.k = "block" -> BlockDiff
    [] OTHER -> <<>>
Final == Ev.k \in {"return", "error", "killed", "hang"}
After ==
  CASE e = 1 -> [Boot(NLt, NInt, C, Ev.n) EXCEPT !.applied = FALSE] @@ [ended |-> FALSE, first |-> Ev.n]
    [] Ev.k = "apply" -> Apply(NLt, NInt, C, s)
    [] Ev.k = "block" -> IF C.blocks[s.num + 1].bad THEN [s EXCEPT !.ended = TRUE] ELSE Take(NLt, NInt, C, s)
    [] OTHER -> s
\* what there may be to start from after this run
Left ==
  IF Run.db = 0 THEN dbs
  ELSE [dbs EXCEPT ![Run.db] =
         IF s = NoClient THEN [min |-> From.min, max |-> From.max]
         ELSE IF Ev.k = "return" /\ Run.stop # 0 /\ s.num = Run.stop THEN [min |-> s.num, max |-> s.num]
         ELSE [min |-> s.first, max |-> s.num]]

Report(d) == PrintT(<<"VERDICT", Raw[sc].name, ToString(r * 1000 + e), IF d = <<>> THEN <<"ok">> ELSE d>>)
Next ==
  /\ v = <<>>
  /\ sc' = sc
  /\ LET d == Diff IN
     IF d # <<>> THEN /\ Report(d) /\ v' = d /\ UNCHANGED <<r, e, s, dbs>>
     ELSE IF ~Final THEN
       /\ IF e < Len(Run.events) THEN e' = e + 1 /\ UNCHANGED v
          ELSE Report(<<"unfinished", "", "", "">>) /\ v' = <<"unfinished">> /\ UNCHANGED e
       /\ s' = After /\ UNCHANGED <<r, dbs>>
     ELSE
       /\ dbs' = Left /\ s' = NoClient /\ e' = 1
       /\ IF r < Len(Raw[sc].runs) THEN r' = r + 1 /\ UNCHANGED v
          ELSE Report(<<>>) /\ v' = <<"done">> /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
=============================================================================
