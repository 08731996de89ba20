----------------------------- MODULE PureEthash -----------------------------
(* Values of Ethash.tla, to be computed with and without java/Ethash.java. *)
EXTENDS Ethash, TLC
C == EthashCache(3, EthashSeed(1))
Values == <<Fnv(<<1, 2, 3, 4>>, <<255, 254, 253, 252>>), Fnv(Zeros(4), Zeros(4)), Fnv(RepByte(255, 4), RepByte(128, 4)),
            FnvMix(RepByte(200, 8), <<1, 2, 3, 4, 5, 6, 7, 8>>), C, DatasetItem(C, 70000)>>
ASSUME \A i \in 1..Len(Values) : PrintT(<<"VALUE", ToString(i), Hex(Values[i])>>)
=============================================================================
