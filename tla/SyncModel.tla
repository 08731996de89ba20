------------------------------ MODULE SyncModel ------------------------------
(***************************************************************************)
(* The client of Sync.tla with its inner workings: blocks are fetched in   *)
(* batches and decoded by one process, which follows the forks on its own, *)
(* put in a bounded queue, and taken by another process, which saves its   *)
(* work now and then.  Either can be anywhere when the client is stopped.  *)
(* Started again after block n, the first process begins early enough to   *)
(* fill the history, one fork back from the fork of n.                     *)
(***************************************************************************)
EXTENDS Sync, TLC
CONSTANTS N, Kept, Room, Batch, Forks, V

Lt(a, b) == a < b
Id(n) == n
CritsUsed == ({0} \X (1..N)) \cup ({1} \X (2..V)) \cup {<<2, 0>>}
RECURSIVE Scheds(_)
Scheds(k) == IF k = 1 THEN {<<<<<<0, 0>>, 1>>>>} ELSE {Append(s, <<x, k>>) : s \in Scheds(k - 1), x \in CritsUsed}
RECURSIVE Times(_)
Times(k) == IF k = 0 THEN {<<>>} ELSE {Append(t, x) : t \in Times(k - 1), x \in 1..V}
Increasing(t) == \A i \in 2..Len(t) : t[i - 1] < t[i]

VARIABLES c, s, up, q, dl, fresh, saved, bad
vars == <<c, s, up, q, dl, fresh, saved, bad>>

Config(sch, t) == [sched |-> sch, genesis |-> 0, blocks |-> [i \in 1..N |-> [num |-> i, time |-> t[i], id |-> i, bad |-> FALSE, gas |-> 0]],
                   kept |-> Kept, limit |-> 0, stop |-> 0]
Configs == {Config(sch, t) : sch \in {x \in Scheds(Forks) : Ascending(Lt, [i \in 1..Len(x) |-> x[i][1]])}, t \in {x \in Times(N) : Increasing(x)}}

Start(n) ==
  LET back == IF n <= Kept THEN n ELSE Kept
      at == ForkAt(Lt, Id, c, n)
  IN \* by the time of n, whatever the time of the block begun with
     dl' = [num |-> n - back, at |-> LET f == Active(Lt, Crits(c), n - back, TimeOf(c, n)) IN IF f > 1 THEN f - 1 ELSE f]
Init ==
  /\ c \in Configs
  /\ s = Boot(Lt, Id, c, 0)
  /\ dl = [num |-> 0, at |-> IF s.at > 1 THEN s.at - 1 ELSE s.at]
  /\ up = TRUE /\ q = <<>> /\ fresh = 0 /\ saved = 0 /\ bad = ""

\* the limit of it: between two starts no more than one fork may become
\* active within the history filled again
OneFork == LET back == IF saved <= Kept THEN saved ELSE Kept
           IN ForkAt(Lt, Id, c, saved) - ForkAt(Lt, Id, c, saved - back + (IF back > 0 THEN 1 ELSE 0)) <= 1

\* the first process fetches and decodes one batch; it is put once there is room
RECURSIVE Decode(_, _, _)
Decode(d, k, acc) ==
  IF k = 0 \/ d.num = N THEN <<d, acc>>
  ELSE LET e == [num |-> d.num + 1, at |-> MoveOn(Lt, Id, c, d.at, d.num + 1)] IN Decode(e, k - 1, Append(acc, e))
Fetch ==
  /\ up /\ Len(q) + Batch <= Room /\ dl.num < N
  /\ LET r == Decode(dl, Batch, <<>>) IN dl' = r[1] /\ q' = q \o r[2]
  /\ UNCHANGED <<c, s, up, fresh, saved, bad>>
\* after a new start the history is filled first (fresh blocks are still missing)
Fill ==
  /\ up /\ fresh > 0 /\ q # <<>>
  /\ fresh' = fresh - 1
  /\ bad' = IF (OneFork /\ q[1].at # ForkAt(Lt, Id, c, q[1].num)) \/ q[1].num # s.num - fresh + 1 THEN "history" ELSE bad
  /\ q' = Tail(q)
  /\ UNCHANGED <<c, s, up, dl, saved>>
TakeOne ==
  /\ up /\ fresh = 0 /\ q # <<>> /\ HasNext(c, s)
  /\ bad' = IF q[1].num # s.num + 1 THEN "order"
            ELSE IF q[1].at # ForkAt(Lt, Id, c, q[1].num) THEN "decoded"
            ELSE IF NextAt(Lt, Id, c, s) # ForkAt(Lt, Id, c, s.num + 1) THEN "judged" ELSE bad
  /\ s' = Take(Lt, Id, c, IF MustApply(Lt, Id, c, s) THEN Apply(Lt, Id, c, s) ELSE s)
  /\ q' = Tail(q)
  /\ UNCHANGED <<c, up, dl, fresh, saved>>
Save ==
  /\ up /\ fresh = 0 /\ s.num > 0 /\ saved' = s.num
  /\ UNCHANGED <<c, s, up, q, dl, fresh, bad>>
Stop ==
  /\ up /\ up' = FALSE /\ q' = <<>>
  /\ UNCHANGED <<c, s, dl, fresh, saved, bad>>
Restart ==
  /\ ~up /\ up' = TRUE
  /\ s' = Boot(Lt, Id, c, saved)
  /\ Start(saved)
  /\ fresh' = IF saved <= Kept THEN saved ELSE Kept
  /\ UNCHANGED <<c, q, saved, bad>>
Next == Fetch \/ Fill \/ TakeOne \/ Save \/ Stop \/ Restart
Spec == Init /\ [][Next]_vars /\ WF_vars(Fetch) /\ WF_vars(Fill) /\ WF_vars(TakeOne)

Sound == bad = ""
Right == s.at = ForkAt(Lt, Id, c, s.num)
Behind == dl.num >= s.num \/ ~up \/ fresh > 0 \/ s.num = 0
NotAhead == saved <= s.num
\* unless it is stopped for ever, or again and again, every block is taken
Done == (<>[]up) => <>(s.num = N)
=============================================================================
