----------------------------- MODULE Precompiles ----------------------------
(* Precompiled contracts: price and result as functions of the input. *)
EXTENDS Integers, Sequences, Word, Crypto, Forks

Fail == [ok |-> FALSE, gas |-> 0, out |-> <<>>]
Res(g, out) == [ok |-> TRUE, gas |-> g, out |-> out]
NatAt(d, off, n) == NNorm(Slice(d, off, n))

EcRecoverRun(d) ==
  LET v == NatAt(d, 32, 32)
      a == EcRecover(Slice(d, 0, 32), IF v = <<28>> THEN 1 ELSE 0, NatAt(d, 64, 32), NatAt(d, 96, 32))
  IN Res(3000, IF v \notin {<<27>>, <<28>>} \/ a = <<>> THEN <<>> ELSE Pad(a, 32))

----------------------------------------------------------------------------
(* MODEXP (EIP-198, 2565, 7823, 7883) *)
ModexpGas(fk, bl, ml, el, headBits) ==    \* lengths: naturals; result: natural
  LET mx == NMax(bl, ml)
      N(i) == NInt(i)
      sq(x) == NMul(x, x)
      h == IF headBits > 0 THEN headBits - 1 ELSE 0
      long(k) == IF NLe(el, <<32>>) THEN N(h)
                 ELSE NAdd(NMul(N(k), NSub(el, <<32>>)), N(h))
      iter(k) == NMax(long(k), <<1>>)
      words == NDiv(NAdd(mx, <<7>>), <<8>>)
      compB == IF NLe(mx, <<64>>) THEN sq(mx)
               ELSE IF NLe(mx, N(1024)) THEN NSub(NAdd(NDiv(sq(mx), <<4>>), NMul(N(96), mx)), N(3072))
               ELSE NSub(NAdd(NDiv(sq(mx), <<16>>), NMul(N(480), mx)), N(199680))
  IN IF fk < Berlin THEN NDiv(NMul(compB, iter(8)), <<20>>)
     ELSE IF fk < Osaka THEN NMax(N(200), NDiv(NMul(sq(words), iter(8)), <<3>>))
     ELSE NMax(N(500), NMul(IF NLe(mx, <<32>>) THEN <<16>> ELSE NMul(<<2>>, sq(words)), iter(16)))

ModexpRun(fk, d, avail) ==
  LET bl == NatAt(d, 0, 32)
      el == NatAt(d, 32, 32)
      ml == NatAt(d, 64, 32)
      hl == IF NLe(<<32>>, el) THEN 32 ELSE NSat(el)
      head == NNorm(SliceW(d, NAdd(<<96>>, bl), hl))
      gas == ModexpGas(fk, bl, ml, el, NBits(head))
      big(x) == NLt(NInt(1024), x)
  IN IF fk >= Osaka /\ (big(bl) \/ big(el) \/ big(ml)) THEN Fail
     ELSE IF ~NFits(gas) THEN Fail
     ELSE IF NSat(gas) > avail THEN Fail
     ELSE IF bl = <<>> /\ ml = <<>> THEN Res(NSat(gas), <<>>)
     ELSE LET b == NSat(bl)
              e == NSat(el)
              n == NSat(ml)
              \* lengths are bounded by the price
              base == NatAt(d, 96, b)
              ex == NatAt(d, 96 + b, e)
              md == NatAt(d, 96 + b + e, n)
          IN [ok |-> TRUE, gas |-> NSat(gas),
              out |-> IF md = <<>> THEN Zeros(n) ELSE Pad(ModExp(base, ex, md), n)]

----------------------------------------------------------------------------
BnAddRun(fk, d) ==
  LET r == Bn128Add(Slice(d, 0, 64), Slice(d, 64, 64))
  IN IF r = <<>> THEN Fail ELSE Res(IF fk >= Istanbul THEN 150 ELSE 500, r)
BnMulRun(fk, d) ==
  LET r == Bn128Mul(Slice(d, 0, 64), NatAt(d, 64, 32))
  IN IF r = <<>> THEN Fail ELSE Res(IF fk >= Istanbul THEN 6000 ELSE 40000, r)
BnPairRun(fk, d) ==
  LET k == Len(d) \div 192
      g == IF fk >= Istanbul THEN 34000 * k + 45000 ELSE 80000 * k + 100000
      r == Bn128Pairing(d)
  IN IF Len(d) % 192 # 0 THEN Fail
     ELSE IF r = <<>> THEN Fail ELSE Res(g, Pad(r, 32))

Blake2Run(d, avail) ==
  LET rounds == NatAt(d, 0, 4)
      f == d[213]
  IN IF Len(d) # 213 THEN Fail
     ELSE IF f \notin {0, 1} \/ ~NFits(rounds) THEN Fail
     ELSE IF NSat(rounds) > avail THEN Fail
     ELSE [ok |-> TRUE, gas |-> NSat(rounds),
           out |-> Blake2F(NSat(rounds), SubSeq(d, 5, 68), SubSeq(d, 69, 196), SubSeq(d, 197, 212), f = 1)]

BlsModulus == <<115, 237, 167, 83, 41, 157, 125, 72, 51, 57, 216, 8, 9, 161, 216, 5, 83, 189,
  164, 2, 255, 254, 91, 254, 255, 255, 255, 255, 0, 0, 0, 1>>
KzgRun(d) ==
  LET c == SubSeq(d, 97, 144)
  IN IF Len(d) # 192 THEN Fail
     ELSE IF SubSeq(d, 1, 32) # <<1>> \o SubSeq(Sha256(c), 2, 32) THEN Fail
     ELSE IF ~KzgVerify(c, SubSeq(d, 33, 64), SubSeq(d, 65, 96), SubSeq(d, 145, 192)) THEN Fail
     ELSE Res(50000, Pad(NInt(4096), 32) \o BlsModulus)

\* EIP-2537 multi-scalar discounts (thousandths)
G1Disc ==
  <<1000, 949, 848, 797, 764, 750, 738, 728, 719, 712, 705, 698, 692, 687, 682, 677, 673, 669, 
  665, 661, 658, 654, 651, 648, 645, 642, 640, 637, 635, 632, 630, 627, 625, 623, 621, 619, 
  617, 615, 613, 611, 609, 608, 606, 604, 603, 601, 599, 598, 596, 595, 593, 592, 591, 589, 
  588, 586, 585, 584, 582, 581, 580, 579, 577, 576, 575, 574, 573, 572, 570, 569, 568, 567, 
  566, 565, 564, 563, 562, 561, 560, 559, 558, 557, 556, 555, 554, 553, 552, 551, 550, 549, 
  548, 547, 547, 546, 545, 544, 543, 542, 541, 540, 540, 539, 538, 537, 536, 536, 535, 534, 
  533, 532, 532, 531, 530, 529, 528, 528, 527, 526, 525, 525, 524, 523, 522, 522, 521, 520, 
  520, 519>>
G2Disc ==
  <<1000, 1000, 923, 884, 855, 832, 812, 796, 782, 770, 759, 749, 740, 732, 724, 717, 711, 704, 
  699, 693, 688, 683, 679, 674, 670, 666, 663, 659, 655, 652, 649, 646, 643, 640, 637, 634, 
  632, 629, 627, 624, 622, 620, 618, 615, 613, 611, 609, 607, 606, 604, 602, 600, 598, 597, 
  595, 593, 592, 590, 589, 587, 586, 584, 583, 582, 580, 579, 578, 576, 575, 574, 573, 571, 
  570, 569, 568, 567, 566, 565, 563, 562, 561, 560, 559, 558, 557, 556, 555, 554, 553, 552, 
  552, 551, 550, 549, 548, 547, 546, 545, 545, 544, 543, 542, 541, 541, 540, 539, 538, 537, 
  537, 536, 535, 535, 534, 533, 532, 532, 531, 530, 530, 529, 528, 528, 527, 526, 526, 525, 
  524, 524>>
MsmRun(d, pair, mul, disc, r) ==
  LET k == Len(d) \div pair
  IN IF Len(d) = 0 \/ Len(d) % pair # 0 THEN Fail
     ELSE IF r = <<>> THEN Fail
     ELSE Res((k * mul * (IF k > 128 THEN disc[128] ELSE disc[k])) \div 1000, r)
BlsAddRun(d, n, g, r) == IF Len(d) # n THEN Fail ELSE IF r = <<>> THEN Fail ELSE Res(g, r)
BlsPairRun(d) ==
  LET r == BlsPairing(d)
  IN IF Len(d) = 0 \/ Len(d) % 384 # 0 THEN Fail
     ELSE IF r = <<>> THEN Fail
     ELSE Res(32600 * (Len(d) \div 384) + 37700, Pad(r, 32))

P256Run(d) ==
  Res(6900, IF Len(d) = 160
               /\ P256Verify(SubSeq(d, 1, 32), NatAt(d, 32, 32), NatAt(d, 64, 32),
                             NatAt(d, 96, 32), NatAt(d, 128, 32))
            THEN Pad(<<1>>, 32) ELSE <<>>)

WordGas(d, base, per) == base + per * Words(Len(d))
\* avail: the gas of the frame (a price above it fails; no need to compute the result)
PrecompileRun(fk, n, d, avail) ==
  CASE n = 1 -> EcRecoverRun(d)
    [] n = 2 -> Res(WordGas(d, 60, 12), Sha256(d))
    [] n = 3 -> Res(WordGas(d, 600, 120), Pad(Ripemd160(d), 32))
    [] n = 4 -> Res(WordGas(d, 15, 3), d)
    [] n = 5 -> ModexpRun(fk, d, avail)
    [] n = 6 -> BnAddRun(fk, d)
    [] n = 7 -> BnMulRun(fk, d)
    [] n = 8 -> BnPairRun(fk, d)
    [] n = 9 -> Blake2Run(d, avail)
    [] n = 10 -> KzgRun(d)
    [] n = 11 -> BlsAddRun(d, 256, 375, BlsG1Add(d))
    [] n = 12 -> MsmRun(d, 160, 12000, G1Disc, BlsG1Msm(d))
    [] n = 13 -> BlsAddRun(d, 512, 600, BlsG2Add(d))
    [] n = 14 -> MsmRun(d, 288, 22500, G2Disc, BlsG2Msm(d))
    [] n = 15 -> BlsPairRun(d)
    [] n = 256 -> P256Run(d)
    [] n = 16 -> BlsAddRun(d, 64, 5500, BlsMapG1(d))
    [] n = 17 -> BlsAddRun(d, 128, 23800, BlsMapG2(d))
=============================================================================
