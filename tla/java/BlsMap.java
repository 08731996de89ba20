import java.math.BigInteger;
import tlc2.value.impl.*;

/** RFC 9380 maps to BLS12-381 (simplified SWU, isogeny, cofactor), affine. */
class BlsMap {
  static BigInteger hx(String s) { return new BigInteger(s, 16); }
  static final BigInteger P = Crypto.BLP;
  static final Crypto.Ext F1 = new Crypto.Ext(P, BigInteger.ZERO), F2 = Crypto.BL2F;
  static final BigInteger[] A1 = {hx("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")}, B1 = {hx("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")}, Z1 = F1.of(11);
  static final BigInteger[] A2 = {hx("0"),hx("f0")}, B2 = {hx("3f4"),hx("3f4")}, Z2 = F2.of(-2, -1);
  static final BigInteger H1 = hx("d201000000010001"), H2 = hx("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551");
  static final BigInteger[][][] I1 = {{{hx("11a05f2b1e833340b809101dd99815856b303e88a2d7005ff2627b56cdb4e2c85610c2d5f2e62d6eaeac1662734649b7")},{hx("17294ed3e943ab2f0588bab22147a81c7c17e75b2f6a8417f565e33c70d1e86b4838f2a6f318c356e834eef1b3cb83bb")},{hx("d54005db97678ec1d1048c5d10a9a1bce032473295983e56878e501ec68e25c958c3e3d2a09729fe0179f9dac9edcb0")},{hx("1778e7166fcc6db74e0609d307e55412d7f5e4656a8dbf25f1b33289f1b330835336e25ce3107193c5b388641d9b6861")},{hx("e99726a3199f4436642b4b3e4118e5499db995a1257fb3f086eeb65982fac18985a286f301e77c451154ce9ac8895d9")},{hx("1630c3250d7313ff01d1201bf7a74ab5db3cb17dd952799b9ed3ab9097e68f90a0870d2dcae73d19cd13c1c66f652983")},{hx("d6ed6553fe44d296a3726c38ae652bfb11586264f0f8ce19008e218f9c86b2a8da25128c1052ecaddd7f225a139ed84")},{hx("17b81e7701abdbe2e8743884d1117e53356de5ab275b4db1a682c62ef0f2753339b7c8f8c8f475af9ccb5618e3f0c88e")},{hx("80d3cf1f9a78fc47b90b33563be990dc43b756ce79f5574a2c596c928c5d1de4fa295f296b74e956d71986a8497e317")},{hx("169b1f8e1bcfa7c42e0c37515d138f22dd2ecb803a0c5c99676314baf4bb1b7fa3190b2edc0327797f241067be390c9e")},{hx("10321da079ce07e272d8ec09d2565b0dfa7dccdde6787f96d50af36003b14866f69b771f8c285decca67df3f1605fb7b")},{hx("6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229")}},
    {{hx("8ca8d548cff19ae18b2e62f4bd3fa6f01d5ef4ba35b48ba9c9588617fc8ac62b558d681be343df8993cf9fa40d21b1c")},{hx("12561a5deb559c4348b4711298e536367041e8ca0cf0800c0126c2588c48bf5713daa8846cb026e9e5c8276ec82b3bff")},{hx("b2962fe57a3225e8137e629bff2991f6f89416f5a718cd1fca64e00b11aceacd6a3d0967c94fedcfcc239ba5cb83e19")},{hx("3425581a58ae2fec83aafef7c40eb545b08243f16b1655154cca8abc28d6fd04976d5243eecf5c4130de8938dc62cd8")},{hx("13a8e162022914a80a6f1d5f43e7a07dffdfc759a12062bb8d6b44e833b306da9bd29ba81f35781d539d395b3532a21e")},{hx("e7355f8e4e667b955390f7f0506c6e9395735e9ce9cad4d0a43bcef24b8982f7400d24bc4228f11c02df9a29f6304a5")},{hx("772caacf16936190f3e0c63e0596721570f5799af53a1894e2e073062aede9cea73b3538f0de06cec2574496ee84a3a")},{hx("14a7ac2a9d64a8b230b3f5b074cf01996e7f63c21bca68a81996e1cdf9822c580fa5b9489d11e2d311f7d99bbdcc5a5e")},{hx("a10ecf6ada54f825e920b3dafc7a3cce07f8d1d7161366b74100da67f39883503826692abba43704776ec3a79a1d641")},{hx("95fc13ab9e92ad4476d6e3eb3a56680f682b4ee96f7d03776df533978f31c1593174e4b4b7865002d6384d168ecdd0a")},{hx("1")}},
    {{hx("90d97c81ba24ee0259d1f094980dcfa11ad138e48a869522b52af6c956543d3cd0c7aee9b3ba3c2be9845719707bb33")},{hx("134996a104ee5811d51036d776fb46831223e96c254f383d0f906343eb67ad34d6c56711962fa8bfe097e75a2e41c696")},{hx("cc786baa966e66f4a384c86a3b49942552e2d658a31ce2c344be4b91400da7d26d521628b00523b8dfe240c72de1f6")},{hx("1f86376e8981c217898751ad8746757d42aa7b90eeb791c09e4a3ec03251cf9de405aba9ec61deca6355c77b0e5f4cb")},{hx("8cc03fdefe0ff135caf4fe2a21529c4195536fbe3ce50b879833fd221351adc2ee7f8dc099040a841b6daecf2e8fedb")},{hx("16603fca40634b6a2211e11db8f0a6a074a7d0d4afadb7bd76505c3d3ad5544e203f6326c95a807299b23ab13633a5f0")},{hx("4ab0b9bcfac1bbcb2c977d027796b3ce75bb8ca2be184cb5231413c4d634f3747a87ac2460f415ec961f8855fe9d6f2")},{hx("987c8d5333ab86fde9926bd2ca6c674170a05bfe3bdd81ffd038da6c26c842642f64550fedfe935a15e4ca31870fb29")},{hx("9fc4018bd96684be88c9e221e4da1bb8f3abd16679dc26c1e8b6e6a1f20cabe69d65201c78607a360370e577bdba587")},{hx("e1bba7a1186bdb5223abde7ada14a23c42a0ca7915af6fe06985e7ed1e4d43b9b3f7055dd4eba6f2bafaaebca731c30")},{hx("19713e47937cd1be0dfd0b8f1d43fb93cd2fcbcb6caf493fd1183e416389e61031bf3a5cce3fbafce813711ad011c132")},{hx("18b46a908f36f6deb918c143fed2edcc523559b8aaf0c2462e6bfe7f911f643249d9cdf41b44d606ce07c8a4d0074d8e")},{hx("b182cac101b9399d155096004f53f447aa7b12a3426b08ec02710e807b4633f06c851c1919211f20d4c04f00b971ef8")},{hx("245a394ad1eca9b72fc00ae7be315dc757b3b080d4c158013e6632d3c40659cc6cf90ad1c232a6442d9d3f5db980133")},{hx("5c129645e44cf1102a159f748c4a3fc5e673d81d7e86568d9ab0f5d396a7ce46ba1049b6579afb7866b1e715475224b")},{hx("15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604")}},
    {{hx("16112c4c3a9c98b252181140fad0eae9601a6de578980be6eec3232b5be72e7a07f3688ef60c206d01479253b03663c1")},{hx("1962d75c2381201e1a0cbd6c43c348b885c84ff731c4d59ca4a10356f453e01f78a4260763529e3532f6102c2e49a03d")},{hx("58df3306640da276faaae7d6e8eb15778c4855551ae7f310c35a5dd279cd2eca6757cd636f96f891e2538b53dbf67f2")},{hx("16b7d288798e5395f20d23bf89edb4d1d115c5dbddbcd30e123da489e726af41727364f2c28297ada8d26d98445f5416")},{hx("be0e079545f43e4b00cc912f8228ddcc6d19c9f0f69bbb0542eda0fc9dec916a20b15dc0fd2ededda39142311a5001d")},{hx("8d9e5297186db2d9fb266eaac783182b70152c65550d881c5ecd87b6f0f5a6449f38db9dfa9cce202c6477faaf9b7ac")},{hx("166007c08a99db2fc3ba8734ace9824b5eecfdfa8d0cf8ef5dd365bc400a0051d5fa9c01a58b1fb93d1a1399126a775c")},{hx("16a3ef08be3ea7ea03bcddfabba6ff6ee5a4375efa1f4fd7feb34fd206357132b920f5b00801dee460ee415a15812ed9")},{hx("1866c8ed336c61231a1be54fd1d74cc4f9fb0ce4c6af5920abc5750c4bf39b4852cfe2f7bb9248836b233d9d55535d4a")},{hx("167a55cda70a6e1cea820597d94a84903216f763e13d87bb5308592e7ea7d4fbc7385ea3d529b35e346ef48bb8913f55")},{hx("4d2f259eea405bd48f010a01ad2911d9c6dd039bb61a6290e591b36e636a5c871a5c29f4f83060400f8b49cba8f6aa8")},{hx("accbb67481d033ff5852c1e48c50c477f94ff8aefce42d28c0f9a88cea7913516f968986f7ebbea9684b529e2561092")},{hx("ad6b9514c767fe3c3613144b45f1496543346d98adf02267d5ceef9a00d9b8693000763e3b90ac11e99b138573345cc")},{hx("2660400eb2e4f3b628bdd0d53cd76f2bf565b94e72927c1cb748df27942480e420517bd8714cc80d1fadc1326ed06f7")},{hx("e0fa1d816ddc03e6b24255e0d7819c171c40f65e273b853324efcd6356caa205ca2f570f13497804415473a1d634b8f")},{hx("1")}}};
  static final BigInteger[][][] I2 = {{{hx("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6"),hx("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6")},{hx("0"),hx("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71a")},{hx("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71e"),hx("8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38d")},{hx("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1"),hx("0")}},
    {{hx("0"),hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaa63")},{hx("c"),hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaa9f")},{hx("1"),hx("0")},{hx("0"),hx("0")}},
    {{hx("1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706"),hx("1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706")},{hx("0"),hx("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97be")},{hx("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71c"),hx("8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38f")},{hx("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10"),hx("0")}},
    {{hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffa8fb"),hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffa8fb")},{hx("0"),hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffa9d3")},{hx("12"),hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaa99")},{hx("1"),hx("0")}}};

  static BigInteger[] sqrt(Crypto.Ext F, BigInteger[] a) {   // p = 3 mod 4; null if there is none
    BigInteger[] y;
    if (F.d == 1) y = new BigInteger[]{a[0].modPow(P.add(BigInteger.ONE).shiftRight(2), P)};
    else {
      if (F.zero(a)) return a;
      BigInteger[] a1 = F.pow(a, P.subtract(BigInteger.valueOf(3)).shiftRight(2)), al = F.mul(F.mul(a1, a1), a), x0 = F.mul(a1, a);
      if (F.zero(F.add(al, F.of(1)))) y = F.mul(F.of(0, 1), x0);
      else y = F.mul(F.pow(F.add(F.of(1), al), P.subtract(BigInteger.ONE).shiftRight(1)), x0);
    }
    return F.zero(F.sub(F.mul(y, y), a)) ? y : null;
  }
  static boolean sgn0(BigInteger[] x) {
    if (x.length == 1) return x[0].testBit(0);
    return x[0].testBit(0) || (x[0].signum() == 0 && x[1].testBit(0));
  }
  static BigInteger[] poly(Crypto.Ext F, BigInteger[][] k, BigInteger[] x) {
    BigInteger[] r = F.of(0);
    for (int i = k.length - 1; i >= 0; i--) r = F.add(F.mul(r, x), k[i]);
    return r;
  }
  static BigInteger[][] map(Crypto.Ext F, BigInteger[] A, BigInteger[] B, BigInteger[] Z, BigInteger[][][] I, BigInteger[] u) {
    BigInteger[] zu = F.mul(Z, F.mul(u, u)), t = F.add(F.mul(zu, zu), zu), x, g, y;
    if (F.zero(t)) x = F.mul(B, F.inv(F.mul(Z, A)));
    else x = F.mul(F.mul(F.sub(F.of(0), B), F.inv(A)), F.add(F.of(1), F.inv(t)));
    g = F.add(F.add(F.mul(F.mul(x, x), x), F.mul(A, x)), B);
    y = sqrt(F, g);
    if (y == null) {
      x = F.mul(zu, x);
      g = F.add(F.add(F.mul(F.mul(x, x), x), F.mul(A, x)), B);
      y = sqrt(F, g);
    }
    if (sgn0(u) != sgn0(y)) y = F.sub(F.of(0), y);
    BigInteger[] xd = poly(F, I[1], x), yd = poly(F, I[3], x);
    if (F.zero(xd) || F.zero(yd)) return null;
    return new BigInteger[][]{F.mul(poly(F, I[0], x), F.inv(xd)), F.mul(y, F.mul(poly(F, I[2], x), F.inv(yd)))};
  }
  static byte[] run(byte[] b, boolean two) {
    try {
      if (!two) {
        BigInteger[][] Q = map(F1, A1, B1, Z1, I1, new BigInteger[]{Crypto.fp(b, 0)});
        return Crypto.enc(Crypto.BL1.mul(H1, Q == null ? null : new BigInteger[]{Q[0][0], Q[1][0]}), 64);
      }
      return Crypto.enc2(Crypto.BL2.mul(H2, map(F2, A2, B2, Z2, I2, new BigInteger[]{Crypto.fp(b, 0), Crypto.fp(b, 64)})));
    } catch (Crypto.Bad e) { return new byte[0]; }
  }
}
