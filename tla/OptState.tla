------------------------------ MODULE OptState ------------------------------
(***************************************************************************)
(* Two designs of the store, side by side, for one account with a few      *)
(* slots:                                                                  *)
(*   - a plain map, with a stack of copies of it for the snapshots (this   *)
(*     is what State.tla means, and how the in-memory store works);        *)
(*   - the database-backed store: the database as of the last flush, dirty *)
(*     values, a count of destructions and a journal of undo records.      *)
(* TLC checks that no history of operations tells them apart (Same), and   *)
(* prints the histories it explored, with what is read after each step, to *)
(* be replayed on the real stores (harness/tour.py).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,         \* 1..k
          Vals,          \* values, with 0
          MaxOps, MaxDepth,
          RestoreAlways, \* FALSE: the design before the repair 
          Show          \* whether to print the histories

None == 0                \* no account; 1, 2: two different accounts
Accts == {1, 2}
Un == -1                 \* not modified

VARIABLES ref, stack, crtd,                        \* plain map
          db, dA, dS, cnt, journal, points,        \* database-backed
          hist
vars == <<ref, stack, crtd, db, dA, dS, cnt, journal, points, hist>>
View == <<ref, stack, crtd, db, dA, dS, cnt, journal, points>>

Zero == [k \in Slots |-> 0]
Clean == [k \in Slots |-> Un]

----------------------------------------------------------------------------
(* What can be read of either *)
RefAcct == ref.a
RefSlot(k) == ref.s[k]
RefOrig(k) == IF crtd THEN 0 ELSE stack[1].s[k]
OptAcct == IF dA # Un THEN dA ELSE db.a
OptSlot(k) == IF dS[k] # Un THEN dS[k] ELSE IF cnt > 0 THEN 0 ELSE db.s[k]
OptOrig(k) == IF crtd THEN 0 ELSE db.s[k]
Same == /\ RefAcct = OptAcct
        /\ \A k \in Slots : RefSlot(k) = OptSlot(k)
        /\ stack # <<>> => \A k \in Slots : RefOrig(k) = OptOrig(k)
        /\ Len(stack) = Len(points)

Reads == <<ref'.a, [k \in Slots |-> ref'.s[k]],
           IF stack' = <<>> THEN <<>> ELSE [k \in Slots |-> IF crtd' THEN 0 ELSE stack'[1].s[k]]>>

----------------------------------------------------------------------------
Init == /\ ref = [a |-> None, s |-> Zero] /\ stack = <<>> /\ crtd = FALSE
        /\ db = [a |-> None, s |-> Zero] /\ dA = Un /\ dS = Clean /\ cnt = 0
        /\ journal = <<>> /\ points = <<>> /\ hist = <<>>

Flushed == LET s1 == IF cnt > 0 THEN Zero ELSE db.s
           IN [a |-> IF dA # Un THEN dA ELSE db.a,
               s |-> [k \in Slots |-> IF dS[k] # Un THEN dS[k] ELSE s1[k]]]
Flush == db' = Flushed /\ dA' = Un /\ dS' = Clean /\ cnt' = 0

Begin ==
  /\ Len(stack) < MaxDepth
  /\ stack' = Append(stack, ref) /\ UNCHANGED <<ref, crtd>>
  /\ IF points = <<>> THEN Flush ELSE UNCHANGED <<db, dA, dS, cnt>>
  /\ points' = Append(points, Len(journal)) /\ UNCHANGED journal

Front(s) == SubSeq(s, 1, Len(s) - 1)
Commit ==
  /\ stack # <<>>
  /\ stack' = Front(stack) /\ ref' = ref
  /\ crtd' = (crtd /\ Len(stack) > 1)
  /\ points' = Front(points)
  /\ IF Len(points) = 1 THEN journal' = <<>> /\ Flush ELSE UNCHANGED <<journal, db, dA, dS, cnt>>

\* undo journal records down to length n; x = [dA, dS, cnt]
RECURSIVE Undo(_, _, _)
Undo(j, n, x) ==
  IF Len(j) = n THEN x
  ELSE LET e == j[Len(j)]
           y == CASE e.t = "slot" -> [x EXCEPT !.dS[e.k] = e.old]
                  [] e.t = "acct" -> [x EXCEPT !.dA = e.old]
                  [] e.t = "gone" -> [x EXCEPT !.cnt = @ - 1,
                                               !.dS = IF RestoreAlways \/ x.cnt = 1 THEN e.old ELSE @]
       IN Undo(Front(j), n, y)
Rollback ==
  /\ stack # <<>>
  /\ ref' = stack[Len(stack)] /\ stack' = Front(stack)
  /\ crtd' = (crtd /\ Len(stack) > 1)
  /\ LET n == points[Len(points)]
         x == Undo(journal, n, [dA |-> dA, dS |-> dS, cnt |-> cnt])
     IN dA' = x.dA /\ dS' = x.dS /\ cnt' = x.cnt /\ journal' = SubSeq(journal, 1, n)
  /\ points' = Front(points) /\ db' = db

SetSlot(k, v) ==
  /\ ref.a # None
  /\ ref' = [ref EXCEPT !.s[k] = v] /\ UNCHANGED <<stack, crtd>>
  /\ dA' = IF dA = Un THEN db.a ELSE dA
  /\ journal' = Append(journal, [t |-> "slot", k |-> k, old |-> dS[k]])
  /\ dS' = [dS EXCEPT ![k] = v]
  /\ UNCHANGED <<db, cnt, points>>

SetAcct(a) ==
  /\ ref' = [ref EXCEPT !.a = a] /\ UNCHANGED <<stack, crtd>>
  /\ journal' = Append(journal, [t |-> "acct", k |-> 0, old |-> dA])
  /\ dA' = a /\ UNCHANGED <<db, dS, cnt, points>>

Gone == [t |-> "gone", k |-> 0, old |-> dS]
DestroyStorage ==
  /\ ref' = [ref EXCEPT !.s = Zero] /\ UNCHANGED <<stack, crtd>>
  /\ journal' = journal \o <<Gone, [t |-> "acct", k |-> 0, old |-> dA]>>
  /\ dS' = Clean /\ cnt' = cnt + 1 /\ dA' = OptAcct
  /\ UNCHANGED <<db, points>>
DestroyAccount ==
  /\ ref' = [a |-> None, s |-> Zero] /\ UNCHANGED <<stack, crtd>>
  /\ journal' = journal \o <<Gone, [t |-> "acct", k |-> 0, old |-> dA], [t |-> "acct", k |-> 0, old |-> OptAcct]>>
  /\ dS' = Clean /\ cnt' = cnt + 1 /\ dA' = None
  /\ UNCHANGED <<db, points>>
Created == ~crtd /\ stack # <<>> /\ crtd' = TRUE /\ UNCHANGED <<ref, stack, db, dA, dS, cnt, journal, points>>

Log(o) == hist' = Append(hist, o \o Reads) /\ (Show => PrintT("TOUR " \o ToJson(hist')))
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ Begin /\ Log(<<"begin", 0, 0>>)
     \/ Commit /\ Log(<<"commit", 0, 0>>)
     \/ Rollback /\ Log(<<"rollback", 0, 0>>)
     \/ \E k \in Slots, x \in Vals : SetSlot(k, x) /\ Log(<<"setStorage", k, x>>)
     \/ \E a \in Accts : SetAcct(a) /\ Log(<<"setAccount", a, 0>>)
     \/ DestroyStorage /\ Log(<<"destroyStorage", 0, 0>>)
     \/ DestroyAccount /\ Log(<<"destroyAccount", 0, 0>>)
     \/ Created /\ Log(<<"created", 0, 0>>)
Spec == Init /\ [][Next]_vars
=============================================================================
