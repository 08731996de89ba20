--------------------------- MODULE ScheduleModel ----------------------------
(***************************************************************************)
(* A client following a chain block by block, for every schedule of at     *)
(* most N forks with values up to V and every chain of K blocks whose time *)
(* grows by 1..V at each block.                                            *)
(***************************************************************************)
EXTENDS Schedule, TLC
CONSTANTS N, V, K

Lt(a, b) == a < b
Crits == ({0, 1} \X (0..V)) \cup {<<2, 0>>}
RECURSIVE Schedules(_)
Schedules(n) == IF n = 1 THEN {<<<<0, 0>>>>}
                ELSE {Append(s, c) : s \in Schedules(n - 1), c \in Crits}
All == {s \in UNION {Schedules(n) : n \in 1..N} : Ascending(Lt, s)}

VARIABLES sched, number, time, fork, seen
vars == <<sched, number, time, fork, seen>>
Init == /\ sched \in All
        /\ number = 0 /\ time \in 0..V
        /\ fork = Active(Lt, sched, number, time)
        /\ seen = <<fork>>
Next == /\ number < K
        /\ number' = number + 1
        /\ \E d \in 1..V : time' = time + d
        \* the client moves on from the fork it is on; it never looks back
        /\ fork' = FollowFrom(Lt, sched, fork, number', time')
        /\ seen' = Append(seen, fork')
        /\ UNCHANGED sched
Spec == Init /\ [][Next]_vars

\* moving on is the same as looking up the block
Same == fork = Active(Lt, sched, number, time)
\* the fork's own criterion is met, and that of the fork after it is not
Tight == /\ fork = 1 \/ CritMet(Lt, sched[fork], number, time)
         /\ fork = Len(sched) \/ ~CritMet(Lt, sched[fork + 1], number, time)
Forward == \A i \in 1..(Len(seen) - 1) : seen[i] <= seen[i + 1]
NeverUnscheduled == sched[fork][1] # 2 \/ fork = 1
\* on a schedule whose forks come one after the other on this chain, the
\* active fork is the last one of all whose criterion is met
Latest == \/ \A i \in (fork + 1)..Len(sched) : ~CritMet(Lt, sched[i], number, time)
          \/ \E i, j \in 1..Len(sched) : i < j /\ sched[i][1] < sched[j][1] /\ ~CritMet(Lt, sched[i], number, time) /\ CritMet(Lt, sched[j], number, time)
TotalOrder ==
  \A c, d, e \in Crits :
    /\ ~CritLt(Lt, c, c)
    /\ CritLt(Lt, c, d) => ~CritLt(Lt, d, c)
    /\ c # d => CritLt(Lt, c, d) \/ CritLt(Lt, d, c)
    /\ CritLt(Lt, c, d) /\ CritLt(Lt, d, e) => CritLt(Lt, c, e)
ASSUME TotalOrder
=============================================================================
