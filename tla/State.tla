-------------------------------- MODULE State -------------------------------
(***************************************************************************)
(* The store of accounts and storage behind the EVM, as its users see it:  *)
(* a plain map with nested snapshots.  Do(fk, o, s) performs operation o   *)
(* on store s and is [s, res]: the new store and what the caller is told.  *)
(*                                                                         *)
(*  s.w      the current world: w.a accounts, w.s storage, w.t transient   *)
(*  s.stack  the worlds to return to, innermost last                       *)
(*  s.crtd   accounts created since the outermost snapshot was taken       *)
(*  s.saved  the world at the last commit to the database                  *)
(***************************************************************************)
EXTENDS EVM, Trie

NoRes == <<>>
Bool(b) == IF b THEN <<"true">> ELSE <<"false">>
EmptyWorld == [a |-> EmptyMap, s |-> EmptyMap, t |-> EmptyMap, x |-> <<>>]
NewStore == [w |-> EmptyWorld, stack |-> <<>>, crtd |-> {}, saved |-> EmptyWorld]

PutAcct(w, a, r) == [w EXCEPT !.a = Put(@, a, r)]
RECURSIVE DropEmpty(_, _)
DropEmpty(w, as) ==
  IF as = <<>> THEN w
  ELSE DropEmpty(IF as[1] \in DOMAIN w.a /\ w.a[as[1]] = EmptyAcct THEN Destroy(w, as[1]) ELSE w, Tail(as))

Pop(s) == LET k == Len(s.stack)
          IN [s EXCEPT !.stack = SubSeq(@, 1, k - 1), !.crtd = IF k = 1 THEN {} ELSE @]
ShowAcct(r) == <<Hex(r.n), Hex(r.b), Hex(r.c)>>
Root0(w) == Hex(StateRoot(w))

\* everything that can be read, for the given accounts and slots
Original(s, a, k) == IF a \in s.crtd THEN <<>> ELSE MapGet(s.stack[1].s, a, k)
ReadAll(fk, s, as, ks) ==
  [i \in 1..Len(as) |->
     <<IF as[i] \in DOMAIN s.w.a THEN ShowAcct(s.w.a[as[i]]) ELSE <<>>,
       [j \in 1..Len(ks) |-> Hex(MapGet(s.w.s, as[i], ks[j]))],
       IF fk >= Istanbul /\ s.stack # <<>> THEN [j \in 1..Len(ks) |-> Hex(Original(s, as[i], ks[j]))] ELSE <<>>,
       IF fk >= Cancun THEN [j \in 1..Len(ks) |-> Hex(MapGet(s.w.t, as[i], ks[j]))] ELSE <<>>>>]

\* o: [op, a (address), b (another), k (slot), v (value), r (account), as, ks]
Do(fk, o, s) ==
  LET w == s.w
      a == o.a
      is(x) == [s |-> [s EXCEPT !.w = x], res |-> NoRes]
      says(x) == [s |-> s, res |-> x]
      r == Acct(w, a)
  IN CASE o.op = "begin" -> [s |-> [s EXCEPT !.stack = Append(@, w)], res |-> NoRes]
       [] o.op = "commit" -> [s |-> Pop(s), res |-> NoRes]
       [] o.op = "rollback" -> [s |-> [Pop(s) EXCEPT !.w = s.stack[Len(s.stack)]], res |-> NoRes]
       [] o.op = "setAccount" -> is(PutAcct(w, a, o.r))
       [] o.op = "dropAccount" -> is([w EXCEPT !.a = Del(@, a)])
       [] o.op = "destroyAccount" -> is(Destroy(w, a))
       [] o.op = "destroyStorage" -> is([w EXCEPT !.s = Del(@, a)])
       [] o.op = "created" -> [s |-> [s EXCEPT !.crtd = @ \cup {a}], res |-> NoRes]
       [] o.op = "setStorage" -> is([w EXCEPT !.s = MapSet(@, a, o.k, o.v)])
       [] o.op = "getStorage" -> says(<<Hex(MapGet(w.s, a, o.k))>>)
       [] o.op = "original" -> says(<<Hex(Original(s, a, o.k))>>)
       [] o.op = "setTransient" -> is([w EXCEPT !.t = MapSet(@, a, o.k, o.v)])
       [] o.op = "getTransient" -> says(<<Hex(MapGet(w.t, a, o.k))>>)
       [] o.op = "getAccount" -> says(ShowAcct(r))
       [] o.op = "exists" -> says(Bool(a \in DOMAIN w.a))
       [] o.op = "hasCodeOrNonce" -> says(Bool(r.n # <<>> \/ r.c # <<>>))
       [] o.op = "hasStorage" -> says(Bool(a \in DOMAIN w.s))
       [] o.op = "existsEmpty" -> says(Bool(a \in DOMAIN w.a /\ r = EmptyAcct))
       [] o.op = "alive" -> says(Bool(a \in DOMAIN w.a /\ r # EmptyAcct))
       [] o.op = "move" ->
            IF NLt(r.b, o.v) THEN says(<<"AssertionError">>)
            ELSE LET w1 == SetAcct(fk, w, a, [r EXCEPT !.b = NSub(@, o.v)])
                     q == Acct(w1, o.b)
                 IN is(SetAcct(fk, w1, o.b, [q EXCEPT !.b = NAdd(@, o.v)]))
       [] o.op = "setBalance" -> is(SetAcct(fk, w, a, [r EXCEPT !.b = o.v]))
       [] o.op = "createEther" -> is(SetAcct(fk, w, a, [r EXCEPT !.b = NAdd(@, o.v)]))
       [] o.op = "incNonce" -> is(SetAcct(fk, w, a, [r EXCEPT !.n = NAdd(@, <<1>>)]))
       [] o.op = "setCode" -> is(SetAcct(fk, w, a, [r EXCEPT !.c = o.v]))
       [] o.op = "touch" -> is(IF a \in DOMAIN w.a THEN w ELSE PutAcct(w, a, EmptyAcct))
       [] o.op = "dropEmpty" -> is(DropEmpty(w, o.as))
       [] o.op = "storageRoot" -> says(<<Hex(StorageRoot(w, a))>>)
       [] o.op = "stateRoot" -> says(<<Root0(w)>>)
       [] o.op = "all" -> says(ReadAll(fk, s, o.as, o.ks))
       \* the database
       [] o.op = "save" -> [s |-> [s EXCEPT !.saved = w], res |-> NoRes]
       [] o.op = "restore" -> is([s.saved EXCEPT !.t = w.t])

\* which operations a user may ask for
Allowed(fk, o, s) ==
  CASE o.op \in {"commit", "rollback"} -> s.stack # <<>>
    [] o.op \in {"stateRoot", "storageRoot", "save", "restore"} -> s.stack = <<>>
    [] o.op = "original" -> fk >= Istanbul /\ s.stack # <<>>
    [] o.op = "created" -> fk >= Istanbul
    [] o.op \in {"setTransient", "getTransient"} -> fk >= Cancun
    [] o.op \in {"touch", "createEther"} -> fk < Paris
    [] o.op = "dropEmpty" -> fk >= Spurious /\ fk < Paris
    [] o.op \in {"existsEmpty", "alive"} -> fk >= Spurious
    [] o.op = "setStorage" -> o.a \in DOMAIN s.w.a
    [] OTHER -> TRUE
=============================================================================
