------------------------------ MODULE PureWord ------------------------------
(* Values of Word.tla, to be computed with and without java/Word.java. *)
EXTENDS Word, TLC
CONSTANT Level
F(b) == RepByte(255, b)
S == IF Level = 1 THEN {<<>>, <<1>>, <<31>>, <<1, 0>>, <<128>> \o Zeros(31), F(32)} ELSE
     {<<>>, <<1>>, <<2>>, <<3>>, <<7>>, <<31>>, <<32>>, <<127>>, <<128>>, <<255>>, <<1, 0>>, <<1, 1>>, <<255, 255>>,
      <<128>> \o Zeros(15), F(16), <<1>> \o Zeros(16), <<127>> \o F(31), <<128>> \o Zeros(31), <<128>> \o Zeros(30) \o <<1>>,
      F(31) \o <<254>>, F(32), <<154, 3, 77, 200, 9, 61, 144, 2, 9, 250>>}
P(name, a, v) == PrintT(<<"VALUE", name, ToString(a), ToString(v)>>)
Unary == \A a \in S :
  /\ P("neg", a, WNegate(a)) /\ P("not", a, WNot(a)) /\ P("clz", a, WClz(a)) /\ P("bits", a, NBits(a)) /\ P("sat", a, NSat(a))
  /\ P("norm", a, NNorm(<<0, 0>> \o a)) /\ P("pad", a, Pad(a, 3)) /\ P("hex", a, Hex(a)) /\ P("trunc", a, Trunc(<<7>> \o Pad(a, 32)))
  /\ P("zeros", a, CountZeros(a)) /\ P("slice", a, Slice(a, 3, 5)) /\ P("unhex", a, UnHex(Hex(a))) /\ P("fits", a, NFits(a))
Binary == \A a \in S, b \in S :
  /\ P("+", <<a, b>>, NAdd(a, b)) /\ P("*", <<a, b>>, NMul(a, b)) /\ P("?", <<a, b>>, NCmp(a, b))
  /\ (NLe(b, a) => P("-", <<a, b>>, NSub(a, b)))
  /\ (b # <<>> => P("/", <<a, b>>, <<NDiv(a, b), NMod(a, b)>>))
  /\ P("W+", <<a, b>>, WAdd(a, b)) /\ P("W-", <<a, b>>, WSub(a, b)) /\ P("W*", <<a, b>>, WMul(a, b))
  /\ P("W/", <<a, b>>, <<WDiv(a, b), WMod(a, b), WSDiv(a, b), WSMod(a, b)>>)
  /\ P("cmp", <<a, b>>, <<WLt(a, b), WSLt(a, b)>>)
  /\ P("bit", <<a, b>>, <<WAnd(a, b), WOr(a, b), WXor(a, b), WByte(a, b), WSignExtend(a, b)>>)
  /\ P("shift", <<a, b>>, <<WShl(a, b), WShr(a, b), WSar(a, b)>>)
Small == IF Level = 1 THEN {<<3>>, F(32)} ELSE {<<>>, <<1>>, <<3>>, <<200, 1>>, F(32)}
Ternary == \A a \in Small, b \in Small, c \in Small :
  P("mod", <<a, b, c>>, <<WAddMod(a, b, c), WMulMod(a, b, c)>>)
Powers == \A a \in Small, b \in IF Level = 1 THEN {<<13>>} ELSE {<<>>, <<1>>, <<2>>, <<13>>, <<1, 0>>} : P("exp", <<a, b>>, WExp(a, b))
ASSUME Unary /\ Binary /\ Ternary /\ Powers
Code == <<96, 91, 91, 97, 91, 0, 91, 127, 91, 91>>
ASSUME \A i \in 0..12 : P("dest", i, JumpDest(Code, i))
ASSUME P("put", 1, Put(MapOf(<< <<<<1>>, 2>>, <<<<2>>, 3>> >>), <<1>>, 9)) /\ P("del", 1, Del(MapOf(<< <<<<1>>, 2>>, <<<<2>>, 3>> >>), <<1>>))
ASSUME P("join", 1, JoinWords(<<<<1>>, F(32)>>)) /\ P("splice", 1, Splice(Zeros(6), 2, <<1, 2>>)) /\ P("slicew", 1, <<SliceW(F(4), <<2>>, 4), SliceW(F(4), F(32), 2)>>)
=============================================================================
