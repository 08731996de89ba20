------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Which fork is active: criteria, schedules, and the fork a client        *)
(* follows along a chain.                                                  *)
(*                                                                         *)
(* A criterion is <<kind, value>>: 0 a block number, 1 a timestamp, 2 not  *)
(* scheduled (value 0).  A schedule is a sequence of criteria, one for     *)
(* each fork, in ascending order.  The values are naturals as in Word.tla  *)
(* when traces are checked, and small integers in the model below; L is    *)
(* the order on them (strictly less).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

CritLt(L(_, _), c, d) == c[1] < d[1] \/ (c[1] = d[1] /\ L(c[2], d[2]))
CritMet(L(_, _), c, number, time) ==
  CASE c[1] = 0 -> ~L(number, c[2])
    [] c[1] = 1 -> ~L(time, c[2])
    [] OTHER -> FALSE
Ascending(L(_, _), s) == \A i \in 1..(Len(s) - 1) : ~CritLt(L, s[i + 1], s[i])

\* the active fork: the last one of the run of forks, from the first on,
\* whose criteria are met (the first fork needs none)
RECURSIVE FollowFrom(_, _, _, _, _)
FollowFrom(L(_, _), s, i, number, time) ==
  IF i < Len(s) /\ CritMet(L, s[i + 1], number, time) THEN FollowFrom(L, s, i + 1, number, time) ELSE i
Active(L(_, _), s, number, time) == FollowFrom(L, s, 1, number, time)

\* a stable sort of <<criterion, name>> pairs by criterion
RECURSIVE InsertFork(_, _, _)
InsertFork(L(_, _), x, s) ==
  IF s = <<>> THEN <<x>>
  ELSE IF CritLt(L, x[1], s[1][1]) THEN <<x>> \o s
  ELSE <<s[1]>> \o InsertFork(L, x, Tail(s))
RECURSIVE SortForks(_, _)
SortForks(L(_, _), s) ==
  IF s = <<>> THEN <<>> ELSE InsertFork(L, s[Len(s)], SortForks(L, SubSeq(s, 1, Len(s) - 1)))
=============================================================================
