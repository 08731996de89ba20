-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* A client that takes the blocks of a provider one after the other and    *)
(* has each judged by the fork active at it, and that can be stopped at    *)
(* any moment and started again on what it had saved.                      *)
(*                                                                         *)
(* A configuration c:                                                      *)
(*   sched    sequence of <<criterion, fork>>, ascending (Schedule.tla)    *)
(*   genesis  the time of the first block                                  *)
(*   blocks   what the provider has: [num, time, id, bad] for 1, 2, ...    *)
(*   kept     how many of the latest blocks a fork is given as history     *)
(*   limit    how much gas may be lost by stopping                         *)
(*   stop     the last block to be taken, 0 for all of them                *)
(*   order(_, _)  the order on times and criteria (an argument, L)         *)
(*                                                                         *)
(* The client s: num the last block taken, at the place of its fork in the *)
(* schedule, lo the first block of the history, due whether the fork is    *)
(* still to be applied to the chain before the next block, mark what the   *)
(* blocks taken so far left in the state (here: the number of the last).   *)
(***************************************************************************)
EXTENDS Schedule

Crits(c) == [i \in 1..Len(c.sched) |-> c.sched[i][1]]
TimeOf(c, n) == IF n = 0 THEN c.genesis ELSE c.blocks[n].time
\* numbers in criteria are in the same form as times; num(_) turns an integer into it
ForkAt(L(_, _), num(_), c, n) == Active(L, Crits(c), num(n), TimeOf(c, n))
MoveOn(L(_, _), num(_), c, at, n) == FollowFrom(L, Crits(c), at, num(n), TimeOf(c, n))

\* the history a fork is to be given after n blocks
Oldest(c, n) == IF n + 1 > c.kept THEN n + 1 - c.kept ELSE 0

\* from nothing (n = 0), or from what was saved after block n
Boot(L(_, _), num(_), c, n) ==
  [num |-> n, at |-> ForkAt(L, num, c, n), lo |-> Oldest(c, n), mark |-> n, applied |-> FALSE]

HasNext(c, s) == s.num < Len(c.blocks) /\ ~(c.stop # 0 /\ s.num = c.stop)
NextAt(L(_, _), num(_), c, s) == MoveOn(L, num, c, s.at, s.num + 1)
\* a fork is applied to the chain before its first block, and before block 1
MustApply(L(_, _), num(_), c, s) == ~s.applied /\ (NextAt(L, num, c, s) # s.at \/ s.num = 0)
Apply(L(_, _), num(_), c, s) == [s EXCEPT !.at = NextAt(L, num, c, s), !.applied = TRUE]
\* the provider's next block is not the next block
Misplaced(c, s) == c.blocks[s.num + 1].num # s.num + 1
Take(L(_, _), num(_), c, s) ==
  [s EXCEPT !.num = @ + 1, !.at = NextAt(L, num, c, s), !.lo = Oldest(c, s.num + 1), !.mark = s.num + 1, !.applied = FALSE]

\* what would be lost by stopping now, had block n been saved last
RECURSIVE Lost(_, _, _)
Lost(c, n, m) == IF n >= m THEN 0 ELSE c.blocks[m].gas + 30000 + Lost(c, n, m - 1)
SavedEnough(c, n, m) == n <= m /\ Lost(c, n, m) <= c.limit
=============================================================================
