--------------------------------- MODULE EVM --------------------------------
(***************************************************************************)
(* The virtual machine of the eighteen forks as one transition system.     *)
(*                                                                         *)
(* A machine m is a record with (at least) the fields                      *)
(*   fk    fork index                                                      *)
(*   blk   block environment                                               *)
(*   tx    transaction environment (origin, gas price, blob hashes)        *)
(*   w     the world: accounts w.a, persistent storage w.s, transient      *)
(*         storage w.t, and w.x, the ether that left circulation (ghost)   *)
(*   orig  persistent storage when the transaction began                   *)
(*   crtd  accounts created by the transaction                             *)
(*   fr    the running frame (NoFrame if there is none)                    *)
(*   st    the suspended frames, outermost first                           *)
(* One instruction, one precompile execution, or the end of one frame is   *)
(* one step.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Word, Rlp, Crypto, Forks, Precompiles

----------------------------------------------------------------------------
(* The world *)
EmptyAcct == [n |-> <<>>, b |-> <<>>, c |-> <<>>]
EmptyMap == [x \in {} |-> <<>>]
Acct(w, a) == IF a \in DOMAIN w.a THEN w.a[a] ELSE EmptyAcct
Exists(w, a) == a \in DOMAIN w.a
ExistsEmpty(w, a) == a \in DOMAIN w.a /\ w.a[a] = EmptyAcct
Alive(w, a) == a \in DOMAIN w.a /\ w.a[a] # EmptyAcct
DropStorage(w, a) == IF a \in DOMAIN w.s THEN [w EXCEPT !.s = Del(@, a)] ELSE w
Destroy(w, a) == DropStorage(IF Exists(w, a) THEN [w EXCEPT !.a = Del(@, a)] ELSE w, a)
\* From Paris on an account that becomes empty disappears at once.
SetAcct(fk, w, a, r) ==
  IF fk >= Paris /\ r = EmptyAcct THEN Destroy(w, a)
  ELSE [w EXCEPT !.a = Put(@, a, r)]
SetBal(fk, w, a, b) == SetAcct(fk, w, a, [Acct(w, a) EXCEPT !.b = b])
AddBal(fk, w, a, v) == SetBal(fk, w, a, NAdd(Acct(w, a).b, v))
SubBal(fk, w, a, v) == SetBal(fk, w, a, NSub(Acct(w, a).b, v))
MoveEther(fk, w, from, to, v) == AddBal(fk, SubBal(fk, w, from, v), to, v)
IncNonce(fk, w, a) == SetAcct(fk, w, a, [Acct(w, a) EXCEPT !.n = NAdd(@, <<1>>)])
Touch(w, a) == IF Exists(w, a) THEN w ELSE [w EXCEPT !.a = Put(@, a, EmptyAcct)]

MapGet(f, a, k) == IF a \in DOMAIN f /\ k \in DOMAIN f[a] THEN f[a][k] ELSE <<>>
MapSet(f, a, k, v) ==
  LET old == IF a \in DOMAIN f THEN f[a] ELSE EmptyMap
      new == IF v = <<>> THEN Del(old, k) ELSE Put(old, k, v)
  IN IF DOMAIN new = {} THEN Del(f, a) ELSE Put(f, a, new)
GetS(w, a, k) == MapGet(w.s, a, k)
SetS(w, a, k, v) == [w EXCEPT !.s = MapSet(@, a, k, v)]
\* the value at the start of the transaction
OrigS(m, a, k) == IF a \in m.crtd THEN <<>> ELSE MapGet(m.orig, a, k)
HasStorage(w, a) == a \in DOMAIN w.s
Collides(w, a) == \/ Acct(w, a).n # <<>>
                  \/ Acct(w, a).c # <<>>
                  \/ HasStorage(w, a)

\* EIP-7702 delegation designator 0xef0100 || address
IsDelegation(c) == Len(c) = 23 /\ c[1] = 239 /\ c[2] = 1 /\ c[3] = 0
DelegateOf(c) == SubSeq(c, 4, 23)

----------------------------------------------------------------------------
(* Frames *)
NoFrame == [kind |-> "none", done |-> ""]
Frame(kind, caller, self, caddr, code, value, data, gas, static, depth,
      aA, aK, snap, oOff, oLen, nopc) ==
  [kind |-> kind, caller |-> caller, self |-> self, caddr |-> caddr,
   code |-> code, value |-> value, data |-> data, gas |-> gas, gas0 |-> gas,
   static |-> static, depth |-> depth, aA |-> aA, aK |-> aK, snap |-> snap,
   oOff |-> oOff, oLen |-> oLen, nopc |-> nopc,
   pc |-> 0, stk |-> <<>>, mem |-> <<>>, ret |-> <<>>, logs |-> <<>>,
   refund |-> 0, dels |-> {}, touched |-> {}, done |-> "", out |-> <<>>]

Halt(m) == [m EXCEPT !.fr = [@ EXCEPT !.gas = 0, !.out = <<>>, !.done = "halt"]]
IsErr(fr) == fr.done \in {"halt", "revert"}

----------------------------------------------------------------------------
(* Gas of memory.  Sizes beyond 2^24 bytes cost more than any gas limit. *)
MemCost(bytes) ==
  LET w == bytes \div 32
      q == w \div 512
      r == w % 512
  IN 3 * w + 512 * q * q + 2 * q * r + (r * r) \div 512
Window(cur, off, len) ==    \* new memory size, -1 if out of reach
  IF cur = -1 THEN -1
  ELSE IF len = <<>> THEN cur
  ELSE IF Len(off) > 3 \/ Len(len) > 3 THEN -1
  ELSE LET e == NSat(off) + NSat(len)
       IN IF e > 16000000 THEN -1 ELSE MaxOf(cur, Ceil32(e))
Grow(mem, n) == IF n > Len(mem) THEN mem \o Zeros(n - Len(mem)) ELSE mem
\* rounded up words of a length, saturating
WordsOf(len) == IF Len(len) > 3 THEN 1000000 ELSE Words(NSat(len))

Top(fr, i) == fr.stk[Len(fr.stk) - i]
Addr(w) == Pad(w, 20)

\* memory size after an instruction, -1 if out of reach
NewMem(fr, op) ==
  LET cur == Len(fr.mem)
  IN CASE op = 32 -> Window(cur, Top(fr, 0), Top(fr, 1))
       [] op \in {55, 57, 62} -> Window(cur, Top(fr, 0), Top(fr, 2))
       [] op = 60 -> Window(cur, Top(fr, 1), Top(fr, 3))
       [] op \in {81, 82} -> Window(cur, Top(fr, 0), <<32>>)
       [] op = 83 -> Window(cur, Top(fr, 0), <<1>>)
       [] op = 94 -> Window(Window(cur, Top(fr, 0), Top(fr, 2)), Top(fr, 1), Top(fr, 2))
       [] op \in 160..164 -> Window(cur, Top(fr, 0), Top(fr, 1))
       [] op \in {240, 245} -> Window(cur, Top(fr, 1), Top(fr, 2))
       [] op \in {241, 242} -> Window(Window(cur, Top(fr, 3), Top(fr, 4)), Top(fr, 5), Top(fr, 6))
       [] op \in {244, 250} -> Window(Window(cur, Top(fr, 2), Top(fr, 3)), Top(fr, 4), Top(fr, 5))
       [] op \in {243, 253} -> Window(cur, Top(fr, 0), Top(fr, 1))
       [] OTHER -> cur

AccessCost(aA, a) == IF a \in aA THEN WarmAccess ELSE ColdAccount

(* SSTORE: <<gas, refund>> *)
SstoreCost(m, fr) ==
  LET k == Top(fr, 0)
      new == Top(fr, 1)
      cur == GetS(m.w, fr.self, k)
      orig == OrigS(m, fr.self, k)
      fk == m.fk
      cold == IF fk >= Berlin /\ <<fr.self, k>> \notin fr.aK THEN ColdSload ELSE 0
      same == SloadGas(fk)
      reset == IF fk >= Berlin THEN 2900 ELSE 5000
  IN IF fk < Istanbul
     THEN <<IF cur = <<>> /\ new # <<>> THEN 20000 ELSE 5000,
            IF cur # <<>> /\ new = <<>> THEN 15000 ELSE 0>>
     ELSE IF fr.gas <= 2300 THEN <<MaxInt, 0>>
     ELSE <<cold + (IF orig = cur /\ cur # new
                    THEN (IF orig = <<>> THEN 20000 ELSE reset) ELSE same),
            IF cur = new THEN 0
            ELSE (IF orig # <<>> /\ cur # <<>> /\ new = <<>> THEN ClearRefund(fk) ELSE 0)
               - (IF orig # <<>> /\ cur = <<>> THEN ClearRefund(fk) ELSE 0)
               + (IF orig = new THEN (IF orig = <<>> THEN 20000 - same ELSE reset - same) ELSE 0)>>

DestructCost(m, fr) ==
  LET b == Addr(Top(fr, 0))
      fresh == IF m.fk < Tangerine THEN FALSE
               ELSE IF m.fk = Tangerine THEN ~Exists(m.w, b)
               ELSE ~Alive(m.w, b) /\ Acct(m.w, fr.self).b # <<>>
  IN (IF fresh THEN 25000 ELSE 0)
     + (IF m.fk >= Berlin /\ b \notin fr.aA THEN ColdAccount ELSE 0)

\* variable part of the price, without memory expansion
DynGas(m, fr, op) ==
  CASE op = 10 -> ExpByte(m.fk) * Len(Top(fr, 1))
    [] op = 32 -> 6 * WordsOf(Top(fr, 1))
    [] op \in {55, 57, 62, 94} -> 3 * WordsOf(Top(fr, 2))
    [] op = 60 -> 3 * WordsOf(Top(fr, 3))
                  + (IF m.fk >= Berlin THEN AccessCost(fr.aA, Addr(Top(fr, 0))) ELSE 0)
    [] op \in {49, 59, 63} -> IF m.fk >= Berlin THEN AccessCost(fr.aA, Addr(Top(fr, 0))) ELSE 0
    [] op = 84 -> IF m.fk >= Berlin
                  THEN (IF <<fr.self, Top(fr, 0)>> \in fr.aK THEN WarmAccess ELSE ColdSload)
                  ELSE 0
    [] op = 85 -> SstoreCost(m, fr)[1]
    [] op \in 160..164 -> 8 * NSat(Top(fr, 1))
    [] op = 240 -> IF m.fk >= Shanghai THEN 2 * WordsOf(Top(fr, 2)) ELSE 0
    [] op = 245 -> (IF m.fk >= Shanghai THEN 8 ELSE 6) * WordsOf(Top(fr, 2))
    [] op = 255 -> DestructCost(m, fr)
    [] OTHER -> 0

----------------------------------------------------------------------------
(* Message calls from code *)
\* everything a call needs before it is charged; g = constant price
CallPlan(m, fr, op, g, memGas) ==
  LET req == Top(fr, 0)
      tgt == Addr(Top(fr, 1))
      hasV == op \in {241, 242}
      value == IF hasV THEN Top(fr, 2) ELSE <<>>
      o == IF hasV THEN 3 ELSE 2
      warm == IF m.fk >= Berlin THEN AccessCost(fr.aA, tgt) ELSE 0
      aA1 == IF m.fk >= Berlin THEN fr.aA \cup {tgt} ELSE fr.aA
      code0 == Acct(m.w, tgt).c
      dlg == m.fk >= Prague /\ IsDelegation(code0)
      cad == IF dlg THEN DelegateOf(code0) ELSE tgt
      dcost == IF dlg THEN AccessCost(aA1, cad) ELSE 0
      fresh == op = 241 /\ (IF m.fk < Spurious THEN ~Exists(m.w, tgt)
                            ELSE value # <<>> /\ ~Alive(m.w, tgt))
      extra == g + warm + dcost + (IF fresh THEN 25000 ELSE 0)
               + (IF value # <<>> THEN 9000 ELSE 0)
      stipend == IF value # <<>> THEN 2300 ELSE 0
      avail == fr.gas - extra - memGas
      fwd == IF m.fk < Tangerine THEN NSat(req)
             ELSE IF avail < 0 THEN 0
             ELSE MinOf(NSat(req), avail - avail \div 64)
      ok == avail >= 0 /\ (m.fk >= Tangerine \/ (NFits(req) /\ fwd <= avail))
  IN [ok |-> ok, sub |-> fwd + stipend, cost |-> extra + memGas + fwd,
      tgt |-> tgt, value |-> value, cad |-> cad,
      code |-> IF dlg THEN Acct(m.w, cad).c ELSE code0, nopc |-> dlg,
      aA |-> IF dlg THEN aA1 \cup {cad} ELSE aA1, o |-> o]

\* start of a message call frame: value transfer and account creation
EnterCall(fk, w, caller, to, value, xfer) ==
  LET w1 == IF fk < Paris THEN Touch(w, to) ELSE w
  IN IF xfer /\ value # <<>> THEN MoveEther(fk, w1, caller, to, value) ELSE w1

DoCall(m, fr, op, g, nm) ==
  LET memGas == MemCost(nm) - MemCost(Len(fr.mem))
      p == CallPlan(m, fr, op, g, memGas)
      nargs == p.o + 4
      base == [fr EXCEPT !.gas = @ - p.cost, !.mem = Grow(@, nm), !.pc = @ + 1,
                         !.stk = SubSeq(@, 1, Len(@) - nargs), !.aA = p.aA]
      fail == [m EXCEPT !.fr = [base EXCEPT !.gas = @ + p.sub, !.ret = <<>>,
                                            !.stk = Append(@, <<>>)]]
      data == SliceW(base.mem, Top(fr, p.o), NSat(Top(fr, p.o + 1)))
      to == IF op \in {242, 244} THEN fr.self ELSE p.tgt
      caller == IF op = 244 THEN fr.caller ELSE fr.self
      value == IF op = 244 THEN fr.value ELSE p.value
      child == Frame("call", caller, to, p.cad, p.code, value, data, p.sub,
                     fr.static \/ op = 250, fr.depth + 1, p.aA, fr.aK, m.w,
                     Top(fr, p.o + 2), Top(fr, p.o + 3), p.nopc)
  IN IF ~p.ok THEN Halt(m)
     ELSE IF fr.static /\ op = 241 /\ p.value # <<>> THEN Halt(m)
     ELSE IF NLt(Acct(m.w, fr.self).b, p.value) THEN fail
     ELSE IF fr.depth + 1 > 1024 THEN fail
     ELSE [m EXCEPT !.fr = child, !.st = Append(@, [base EXCEPT !.ret = <<>>]),
                    !.w = EnterCall(m.fk, m.w, caller, to, value, op # 244)]

CreateAddress(sender, nonce) == SubSeq(Keccak(RlpList(<<RlpStr(sender), RlpNat(nonce)>>)), 13, 32)
Create2Address(sender, salt, code) ==
  SubSeq(Keccak(<<255>> \o sender \o Pad(salt, 32) \o Keccak(code)), 13, 32)

\* start of a contract creation frame in world w (sender's nonce already paid)
EnterCreate(fk, w, caller, addr, value) ==
  LET w1 == DropStorage(w, addr)
      w2 == IF fk >= Spurious THEN IncNonce(fk, w1, addr) ELSE w1
  IN EnterCall(fk, w2, caller, addr, value, TRUE)

DoCreate(m, fr, op, fr1) ==    \* fr1: charged, popped, memory grown
  LET value == Top(fr, 0)
      n == NSat(Top(fr, 2))
      code == SliceW(fr1.mem, Top(fr, 1), n)
      me == Acct(m.w, fr.self)
      addr == IF op = 240 THEN CreateAddress(fr.self, me.n)
              ELSE Create2Address(fr.self, Top(fr, 3), code)
      sub == IF m.fk >= Tangerine THEN fr1.gas - fr1.gas \div 64 ELSE fr1.gas
      fr2 == [fr1 EXCEPT !.gas = @ - sub, !.ret = <<>>]
      fr3 == IF m.fk >= Berlin THEN [fr2 EXCEPT !.aA = @ \cup {addr}] ELSE fr2
      w1 == IncNonce(m.fk, m.w, fr.self)
  IN IF n > MaxInitCode(m.fk) \/ fr.static THEN Halt(m)
     ELSE IF NLt(me.b, value) \/ me.n = RepByte(255, 8) \/ fr.depth + 1 > 1024
     THEN [m EXCEPT !.fr = [fr2 EXCEPT !.gas = fr1.gas, !.stk = Append(@, <<>>)]]
     ELSE IF Collides(m.w, addr)
     THEN [m EXCEPT !.fr = [fr3 EXCEPT !.stk = Append(@, <<>>)], !.w = w1]
     ELSE [m EXCEPT !.fr = Frame("create", fr.self, addr, <<>>, code, value, <<>>, sub,
                                 FALSE, fr.depth + 1, fr3.aA, fr.aK, w1, <<>>, <<>>, FALSE),
                    !.st = Append(@, fr3),
                    !.crtd = @ \cup {addr},
                    !.w = EnterCreate(m.fk, w1, fr.self, addr, value)]

DoDestruct(m, fr, fr1) ==
  LET b == Addr(Top(fr, 0))
      bal == Acct(m.w, fr.self).b
      fk == m.fk
      dead == UNION {m.st[i].dels : i \in 1..Len(m.st)} \cup fr.dels
      gone == IF b = fr.self /\ (fk < Cancun \/ fr.self \in m.crtd) THEN bal ELSE <<>>
      frB == IF fk >= Berlin THEN [fr1 EXCEPT !.aA = @ \cup {b}] ELSE fr1
      frR == IF fr.self \in dead THEN frB ELSE [frB EXCEPT !.refund = @ + DestructRefund(fk)]
      w1 == IF fk < Cancun
            THEN SetBal(fk, AddBal(fk, m.w, b, bal), fr.self, <<>>)
            ELSE LET w2 == MoveEther(fk, m.w, fr.self, b, bal)
                 IN IF fr.self \in m.crtd THEN SetBal(fk, w2, fr.self, <<>>) ELSE w2
      del == fk < Cancun \/ fr.self \in m.crtd
      frD == IF del THEN [frR EXCEPT !.dels = @ \cup {fr.self}] ELSE frR
      frT == IF fk >= Spurious /\ fk < Paris /\ ExistsEmpty(w1, b)
             THEN [frD EXCEPT !.touched = @ \cup {b}] ELSE frD
  IN IF fr.static THEN Halt(m)
     ELSE [m EXCEPT !.w = [w1 EXCEPT !.x = NAdd(@, gone)], !.fr = [frT EXCEPT !.done = "ok"]]

----------------------------------------------------------------------------
(* Single instructions.  fr is the frame before, fr1 after charging,       *)
(* popping the arguments, growing memory and advancing pc.                 *)
Push(m, fr1, v) == [m EXCEPT !.fr = [fr1 EXCEPT !.stk = Append(@, v)]]
Keep(m, fr1) == [m EXCEPT !.fr = fr1]

Arith(fr, op) ==
  LET a == Top(fr, 0)
      b == Top(fr, 1)
  IN CASE op = 1 -> WAdd(a, b)
       [] op = 2 -> WMul(a, b)
       [] op = 3 -> WSub(a, b)
       [] op = 4 -> WDiv(a, b)
       [] op = 5 -> WSDiv(a, b)
       [] op = 6 -> WMod(a, b)
       [] op = 7 -> WSMod(a, b)
       [] op = 8 -> WAddMod(a, b, Top(fr, 2))
       [] op = 9 -> WMulMod(a, b, Top(fr, 2))
       [] op = 10 -> WExp(a, b)
       [] op = 11 -> WSignExtend(a, b)
       [] op = 16 -> Flag(WLt(a, b))
       [] op = 17 -> Flag(WLt(b, a))
       [] op = 18 -> Flag(WSLt(a, b))
       [] op = 19 -> Flag(WSLt(b, a))
       [] op = 20 -> Flag(a = b)
       [] op = 21 -> Flag(a = <<>>)
       [] op = 22 -> WAnd(a, b)
       [] op = 23 -> WOr(a, b)
       [] op = 24 -> WXor(a, b)
       [] op = 25 -> WNot(a)
       [] op = 26 -> WByte(a, b)
       [] op = 27 -> WShl(a, b)
       [] op = 28 -> WShr(a, b)
       [] op = 29 -> WSar(a, b)
       [] op = 30 -> WClz(a)

\* BLOCKHASH: only the 256 blocks before the current one
BlockHash(m, n) ==
  LET cur == m.blk.number
      d == NSub(cur, n)
      hs == m.blk.hashes
  IN IF NLe(cur, n) \/ NLt(<<1, 0>>, d) \/ NSat(d) > Len(hs) THEN <<>>
     ELSE NNorm(hs[Len(hs) + 1 - NSat(d)])

EnvValue(m, fr, op) ==
  CASE op = 48 -> NNorm(fr.self)
    [] op = 50 -> NNorm(m.tx.origin)
    [] op = 51 -> NNorm(fr.caller)
    [] op = 52 -> fr.value
    [] op = 54 -> NInt(Len(fr.data))
    [] op = 56 -> NInt(Len(fr.code))
    [] op = 58 -> m.tx.gasPrice
    [] op = 61 -> NInt(Len(fr.ret))
    [] op = 65 -> NNorm(m.blk.coinbase)
    [] op = 66 -> m.blk.time
    [] op = 67 -> m.blk.number
    [] op = 68 -> IF m.fk >= Paris THEN NNorm(m.blk.randao) ELSE m.blk.difficulty
    [] op = 69 -> NInt(m.blk.gasLimit)
    [] op = 70 -> m.blk.chainId
    [] op = 71 -> Acct(m.w, fr.self).b
    [] op = 72 -> m.blk.baseFee
    [] op = 74 -> m.blk.blobPrice

AccountValue(m, op, a) ==
  CASE op = 49 -> Acct(m.w, a).b
    [] op = 59 -> NInt(Len(Acct(m.w, a).c))
    [] op = 63 -> IF Alive(m.w, a) THEN NNorm(Keccak(Acct(m.w, a).c)) ELSE <<>>

CopySource(m, fr, op) ==
  CASE op = 55 -> fr.data
    [] op = 57 -> fr.code
    [] op = 62 -> fr.ret

Exec(m, fr, fr1, op) ==
  CASE op = 0 -> [m EXCEPT !.fr = [fr1 EXCEPT !.done = "ok"]]
    [] op \in 1..30 -> Push(m, fr1, Arith(fr, op))
    [] op = 32 -> Push(m, fr1, NNorm(Keccak(SliceW(fr1.mem, Top(fr, 0), NSat(Top(fr, 1))))))
    [] op \in {49, 59, 63} ->
         LET a == Addr(Top(fr, 0))
         IN Push(m, IF m.fk >= Berlin THEN [fr1 EXCEPT !.aA = @ \cup {a}] ELSE fr1,
                 AccountValue(m, op, a))
    [] op = 53 -> Push(m, fr1, NNorm(SliceW(fr.data, Top(fr, 0), 32)))
    [] op \in {55, 57, 62} ->
         LET src == CopySource(m, fr, op)
             n == NSat(Top(fr, 2))
         IN IF op = 62 /\ (~NFits(Top(fr, 1)) \/ NSat(Top(fr, 1)) + n > Len(src)) THEN Halt(m)
            ELSE Keep(m, IF n = 0 THEN fr1
                         ELSE [fr1 EXCEPT !.mem = Splice(@, NSat(Top(fr, 0)), SliceW(src, Top(fr, 1), n))])
    [] op = 60 ->
         LET a == Addr(Top(fr, 0))
             n == NSat(Top(fr, 3))
             fr2 == IF m.fk >= Berlin THEN [fr1 EXCEPT !.aA = @ \cup {a}] ELSE fr1
         IN Keep(m, IF n = 0 THEN fr2
                    ELSE [fr2 EXCEPT !.mem = Splice(@, NSat(Top(fr, 1)), SliceW(Acct(m.w, a).c, Top(fr, 2), n))])
    [] op = 64 -> Push(m, fr1, BlockHash(m, Top(fr, 0)))
    [] op = 73 -> Push(m, fr1, LET i == Top(fr, 0)
                               IN IF NFits(i) /\ NSat(i) < Len(m.tx.blobs)
                                  THEN NNorm(m.tx.blobs[NSat(i) + 1]) ELSE <<>>)
    [] op \in 48..74 -> Push(m, fr1, EnvValue(m, fr, op))
    [] op = 80 -> Keep(m, fr1)
    [] op = 81 -> Push(m, fr1, NNorm(Slice(fr1.mem, NSat(Top(fr, 0)), 32)))
    [] op = 82 -> Keep(m, [fr1 EXCEPT !.mem = Splice(@, NSat(Top(fr, 0)), Pad(Top(fr, 1), 32))])
    [] op = 83 -> Keep(m, [fr1 EXCEPT !.mem = Splice(@, NSat(Top(fr, 0)), Pad(Top(fr, 1), 1))])
    [] op = 84 -> Push(m, IF m.fk >= Berlin
                          THEN [fr1 EXCEPT !.aK = @ \cup {<<fr.self, Top(fr, 0)>>}] ELSE fr1,
                       GetS(m.w, fr.self, Top(fr, 0)))
    [] op = 85 -> IF fr.static THEN Halt(m)
                  ELSE [m EXCEPT !.w = SetS(@, fr.self, Top(fr, 0), Top(fr, 1)),
                                 !.fr = [fr1 EXCEPT !.refund = @ + SstoreCost(m, fr)[2],
                                                    !.aK = IF m.fk >= Berlin
                                                           THEN @ \cup {<<fr.self, Top(fr, 0)>>} ELSE @]]
    [] op \in {86, 87} ->
         IF op = 87 /\ Top(fr, 1) = <<>> THEN Keep(m, fr1)
         ELSE IF NFits(Top(fr, 0)) /\ JumpDest(fr.code, NSat(Top(fr, 0)))
         THEN Keep(m, [fr1 EXCEPT !.pc = NSat(Top(fr, 0))])
         ELSE Halt(m)
    [] op = 88 -> Push(m, fr1, NInt(fr.pc))
    [] op = 89 -> Push(m, fr1, NInt(Len(fr.mem)))
    [] op = 90 -> Push(m, fr1, NInt(fr1.gas))
    [] op = 91 -> Keep(m, fr1)
    [] op = 92 -> Push(m, fr1, MapGet(m.w.t, fr.self, Top(fr, 0)))
    [] op = 93 -> IF fr.static THEN Halt(m)
                  ELSE [m EXCEPT !.w = [@ EXCEPT !.t = MapSet(@, fr.self, Top(fr, 0), Top(fr, 1))],
                                 !.fr = fr1]
    [] op = 94 -> LET n == NSat(Top(fr, 2))
                  IN Keep(m, IF n = 0 THEN fr1
                             ELSE [fr1 EXCEPT !.mem = Splice(@, NSat(Top(fr, 0)),
                                                             Slice(fr1.mem, NSat(Top(fr, 1)), n))])
    [] op = 95 -> Push(m, fr1, <<>>)
    [] op \in 96..127 -> LET n == op - 95
                         IN Push(m, [fr1 EXCEPT !.pc = fr.pc + 1 + n],
                                 NNorm(Slice(fr.code, fr.pc + 1, n)))
    [] op \in 128..143 -> Keep(m, [fr1 EXCEPT !.stk = Append(fr.stk, Top(fr, op - 128))])
    [] op \in 144..159 ->
         LET n == Len(fr.stk)
             k == n - (op - 143)
         IN Keep(m, [fr1 EXCEPT !.stk = [fr.stk EXCEPT ![n] = fr.stk[k], ![k] = fr.stk[n]]])
    [] op \in 160..164 ->
         IF fr.static THEN Halt(m)
         ELSE LET k == op - 160
                  topics == [i \in 1..k |-> Pad(Top(fr, i + 1), 32)]
                  data == SliceW(fr1.mem, Top(fr, 0), NSat(Top(fr, 1)))
              IN Keep(m, [fr1 EXCEPT !.logs = Append(@, [a |-> fr.self, t |-> topics, d |-> data])])
    [] op \in {240, 245} -> DoCreate(m, fr, op, fr1)
    [] op = 243 -> Keep(m, [fr1 EXCEPT !.out = SliceW(fr1.mem, Top(fr, 0), NSat(Top(fr, 1))),
                                       !.done = "ok"])
    [] op = 253 -> Keep(m, [fr1 EXCEPT !.out = SliceW(fr1.mem, Top(fr, 0), NSat(Top(fr, 1))),
                                       !.done = "revert"])
    [] op = 255 -> DoDestruct(m, fr, fr1)

\* price of an instruction other than a call; nm = memory size after it
OpGas(m, fr, op, nm) ==
  OpTable[m.fk + 1][op + 1].g + DynGas(m, fr, op)
  + (IF nm = Len(fr.mem) THEN 0 ELSE MemCost(nm) - MemCost(Len(fr.mem)))
IsCallOp(op) == op \in {241, 242, 244, 250}
StackOk(fr, e) == ~(Len(fr.stk) < e.i \/ Len(fr.stk) - e.i + e.o > 1024)

StepOp(m) ==
  LET fr == m.fr
      op == fr.code[fr.pc + 1]
      e == OpTable[m.fk + 1][op + 1]
      n == Len(fr.stk)
  IN IF ~e.def \/ ~StackOk(fr, e) THEN Halt(m)
     ELSE LET nm == NewMem(fr, op)
          IN IF nm = -1 THEN Halt(m)
             ELSE IF IsCallOp(op) THEN DoCall(m, fr, op, e.g, nm)
             ELSE LET g == OpGas(m, fr, op, nm)
                  IN IF g > fr.gas THEN Halt(m)
                     ELSE Exec(m, fr,
                               [fr EXCEPT !.gas = @ - g, !.stk = SubSeq(@, 1, n - e.i),
                                          !.mem = Grow(@, nm), !.pc = @ + 1],
                               op)

\* what the running frame is about to do: "" (nothing of its own code),
\* "op", "invalid" (an undefined instruction) or "stop" (the end of the code)
Upcoming(m) ==
  IF m.phase # "run" \/ m.out.bad # "" THEN ""
  ELSE LET fr == m.fr
       IN IF fr.done # "" THEN ""
          ELSE IF fr.pc = 0 /\ fr.kind = "call" /\ PrecompileOf(m.fk, fr.caddr) # 0 THEN ""
          ELSE IF fr.pc >= Len(fr.code) THEN IF fr.code = <<>> THEN "" ELSE "stop"
          ELSE IF OpTable[m.fk + 1][fr.code[fr.pc + 1] + 1].def THEN "op" ELSE "invalid"

----------------------------------------------------------------------------
(* End of a frame *)
RipemdAddr == Pad(<<3>>, 20)

\* the frame with its final outcome, and the world after it
Settle(m) ==
  LET fr == m.fr
      fk == m.fk
  IN IF IsErr(fr) THEN [m EXCEPT !.w = fr.snap]
     ELSE IF fr.kind # "create" THEN m
     ELSE LET cost == 200 * Len(fr.out)
              bad == \/ fk >= London /\ Len(fr.out) > 0 /\ fr.out[1] = 239
                     \/ cost > fr.gas
                     \/ Len(fr.out) > MaxCodeSize(fk)
              setc == SetAcct(fk, m.w, fr.self, [Acct(m.w, fr.self) EXCEPT !.c = fr.out])
          IN IF ~bad THEN [m EXCEPT !.w = setc, !.fr = [@ EXCEPT !.gas = @ - cost]]
             ELSE IF fk = Frontier THEN [m EXCEPT !.fr = [@ EXCEPT !.out = <<>>]]
             ELSE [m EXCEPT !.w = fr.snap,
                            !.fr = [@ EXCEPT !.gas = 0, !.out = <<>>, !.done = "halt"]]

\* hand the outcome of a settled child to the parent frame
Resume(m) ==
  LET c == m.fr
      p == m.st[Len(m.st)]
      fk == m.fk
      touching == fk >= Spurious /\ fk < Paris
      err == IsErr(c)
      p1 == IF err
            THEN [p EXCEPT !.gas = @ + c.gas,
                           !.touched = IF touching /\ (\/ RipemdAddr \in c.touched
                                                       \/ c.self = RipemdAddr /\ ExistsEmpty(m.w, c.self))
                                       THEN @ \cup {RipemdAddr} ELSE @]
            ELSE [p EXCEPT !.gas = @ + c.gas, !.logs = @ \o c.logs, !.refund = @ + c.refund,
                           !.dels = @ \cup c.dels, !.aA = c.aA, !.aK = c.aK,
                           !.touched = IF touching
                                       THEN @ \cup c.touched
                                            \cup (IF ExistsEmpty(m.w, c.self) THEN {c.self} ELSE {})
                                       ELSE @]
      n == MinOf(NSat(c.oLen), Len(c.out))
      p2 == IF c.kind = "create"
            THEN [p1 EXCEPT !.ret = IF err THEN c.out ELSE <<>>,
                            !.stk = Append(@, IF err THEN <<>> ELSE NNorm(c.self))]
            ELSE [p1 EXCEPT !.ret = c.out,
                            !.stk = Append(@, Flag(~err)),
                            !.mem = IF n = 0 THEN @ ELSE Splice(@, NSat(c.oOff), SubSeq(c.out, 1, n))]
  IN [m EXCEPT !.fr = p2, !.st = SubSeq(@, 1, Len(@) - 1)]

\* one step of the machine while a frame is running; a finished outermost
\* frame is left in place, settled
RunPrecompile(m, k) ==
  LET fr == m.fr
      r == PrecompileRun(m.fk, k, fr.data, fr.gas)
  IN IF ~r.ok \/ r.gas > fr.gas THEN Halt(m)
     ELSE [m EXCEPT !.fr = [@ EXCEPT !.gas = @ - r.gas, !.out = r.out, !.done = "ok"]]

StepFrame(m) ==
  LET fr == m.fr
      k == IF fr.pc = 0 /\ fr.kind = "call" THEN PrecompileOf(m.fk, fr.caddr) ELSE 0
  IN IF fr.done # "" THEN Resume(Settle(m))
     ELSE IF k # 0 THEN (IF fr.nopc THEN [m EXCEPT !.fr = [@ EXCEPT !.done = "ok"]]
                         ELSE RunPrecompile(m, k))
     ELSE IF fr.pc >= Len(fr.code) THEN [m EXCEPT !.fr = [@ EXCEPT !.done = "ok"]]
     ELSE StepOp(m)
=============================================================================
