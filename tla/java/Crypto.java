import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;
import tlc2.value.impl.*;

/** Independent implementations of the primitives named in Crypto.tla. */
public class Crypto {
  // ---------------------------------------------------------------- Keccak
  static final long[] RC = {1L,0x8082L,0x800000000000808aL,0x8000000080008000L,0x808bL,0x80000001L,
    0x8000000080008081L,0x8000000000008009L,0x8aL,0x88L,0x80008009L,0x8000000aL,0x8000808bL,
    0x800000000000008bL,0x8000000000008089L,0x8000000000008003L,0x8000000000008002L,
    0x8000000000000080L,0x800aL,0x800000008000000aL,0x8000000080008081L,0x8000000000008080L,
    0x80000001L,0x8000000080008008L};
  static void f1600(long[] a) {
    for (int r = 0; r < 24; r++) {
      long[] c = new long[5], d = new long[5];
      for (int x = 0; x < 5; x++) c[x] = a[x]^a[x+5]^a[x+10]^a[x+15]^a[x+20];
      for (int x = 0; x < 5; x++) d[x] = c[(x+4)%5] ^ Long.rotateLeft(c[(x+1)%5], 1);
      for (int k = 0; k < 25; k++) a[k] ^= d[k%5];
      int x = 1, y = 0; long cur = a[1];
      for (int t = 0; t < 24; t++) {
        int ny = (2*x + 3*y) % 5; x = y; y = ny;
        long tmp = a[x + 5*y];
        a[x + 5*y] = Long.rotateLeft(cur, ((t+1)*(t+2)/2) % 64);
        cur = tmp;
      }
      for (int j = 0; j < 25; j += 5) {
        long[] row = Arrays.copyOfRange(a, j, j+5);
        for (int i = 0; i < 5; i++) a[j+i] = row[i] ^ (~row[(i+1)%5] & row[(i+2)%5]);
      }
      a[0] ^= RC[r];
    }
  }
  static byte[] keccak(byte[] in, int out) {
    int rate = 200 - 2*out;
    byte[] p = Arrays.copyOf(in, (in.length / rate + 1) * rate);
    p[in.length] ^= 1; p[p.length-1] ^= (byte) 0x80;
    long[] a = new long[25];
    for (int o = 0; o < p.length; o += rate) {
      for (int i = 0; i < rate; i++) a[i/8] ^= (p[o+i] & 255L) << (8*(i%8));
      f1600(a);
    }
    byte[] r = new byte[out];
    for (int i = 0; i < out; i++) r[i] = (byte) (a[i/8] >>> (8*(i%8)));
    return r;
  }
  public static Value Keccak(Value b) { return Word.tup(keccak(Word.bytes(b), 32)); }
  public static Value Keccak512(Value b) { return Word.tup(keccak(Word.bytes(b), 64)); }
  public static Value Sha256(Value b) {
    try { return Word.tup(MessageDigest.getInstance("SHA-256").digest(Word.bytes(b))); }
    catch (Exception e) { throw new RuntimeException(e); }
  }
  // ------------------------------------------------------------- RIPEMD-160
  static final int[] RL = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
    3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static final int[] RR = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
    15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static final int[] SL = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
    11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static final int[] SR = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
    9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static final int[] KL = {0,0x5A827999,0x6ED9EBA1,0x8F1BBCDC,0xA953FD4E}, KR = {0x50A28BE6,0x5C4DD124,0x6D703EF3,0x7A6D76E9,0};
  static int rf(int j, int x, int y, int z) {
    switch (j) { case 0: return x^y^z; case 1: return (x&y)|(~x&z); case 2: return (x|~y)^z;
      case 3: return (x&z)|(y&~z); default: return x^(y|~z); } }
  static byte[] ripemd(byte[] in) {
    byte[] p = Arrays.copyOf(in, ((in.length + 8) / 64 + 1) * 64);
    p[in.length] = (byte) 0x80; long bits = 8L * in.length;
    for (int i = 0; i < 8; i++) p[p.length - 8 + i] = (byte) (bits >>> (8*i));
    int[] h = {0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476,0xC3D2E1F0};
    for (int o = 0; o < p.length; o += 64) {
      int[] x = new int[16];
      for (int i = 0; i < 64; i++) x[i/4] |= (p[o+i] & 255) << (8*(i%4));
      int[] a = h.clone(), b = h.clone();
      for (int j = 0; j < 80; j++) {
        int t = Integer.rotateLeft(a[0] + rf(j/16,a[1],a[2],a[3]) + x[RL[j]] + KL[j/16], SL[j]) + a[4];
        a[0]=a[4]; a[4]=a[3]; a[3]=Integer.rotateLeft(a[2],10); a[2]=a[1]; a[1]=t;
        t = Integer.rotateLeft(b[0] + rf(4-j/16,b[1],b[2],b[3]) + x[RR[j]] + KR[j/16], SR[j]) + b[4];
        b[0]=b[4]; b[4]=b[3]; b[3]=Integer.rotateLeft(b[2],10); b[2]=b[1]; b[1]=t;
      }
      int t = h[1]+a[2]+b[3]; h[1]=h[2]+a[3]+b[4]; h[2]=h[3]+a[4]+b[0]; h[3]=h[4]+a[0]+b[1]; h[4]=h[0]+a[1]+b[2]; h[0]=t;
    }
    byte[] r = new byte[20];
    for (int i = 0; i < 20; i++) r[i] = (byte) (h[i/4] >>> (8*(i%4)));
    return r;
  }
  public static Value Ripemd160(Value b) { return Word.tup(ripemd(Word.bytes(b))); }

  // -------------------------------------------------- short Weierstrass, Fp
  static BigInteger hx(String s) { return new BigInteger(s, 16); }
  static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3);
  static class Curve { BigInteger p, a, b; Curve(BigInteger p, BigInteger a, BigInteger b) { this.p=p; this.a=a; this.b=b; }
    boolean on(BigInteger[] P) { return P == null || P[1].multiply(P[1]).subtract(P[0].modPow(THREE,p).add(a.multiply(P[0])).add(b)).mod(p).signum() == 0; }
    BigInteger[] add(BigInteger[] P, BigInteger[] Q) {
      if (P == null) return Q; if (Q == null) return P;
      BigInteger l;
      if (P[0].equals(Q[0])) {
        if (P[1].add(Q[1]).mod(p).signum() == 0) return null;
        l = P[0].multiply(P[0]).multiply(THREE).add(a).multiply(P[1].shiftLeft(1).modInverse(p)).mod(p);
      } else l = Q[1].subtract(P[1]).multiply(Q[0].subtract(P[0]).mod(p).modInverse(p)).mod(p);
      BigInteger x = l.multiply(l).subtract(P[0]).subtract(Q[0]).mod(p);
      return new BigInteger[]{x, l.multiply(P[0].subtract(x)).subtract(P[1]).mod(p)};
    }
    BigInteger[] mul(BigInteger k, BigInteger[] P) {
      BigInteger[] r = null;
      for (int i = k.bitLength() - 1; i >= 0; i--) { r = add(r, r); if (k.testBit(i)) r = add(r, P); }
      return r;
    }
    BigInteger sqrt(BigInteger v) { // p = 3 mod 4
      BigInteger s = v.modPow(p.add(ONE).shiftRight(2), p);
      return s.multiply(s).subtract(v).mod(p).signum() == 0 ? s : null; }
  }
  static final Curve K1 = new Curve(hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), ZERO, BigInteger.valueOf(7));
  static final BigInteger K1N = hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
  static final BigInteger[] K1G = {hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")};
  static byte[] pad(BigInteger x, int n) {
    byte[] b = x.toByteArray(), r = new byte[n];
    int l = Math.min(n, b.length);
    System.arraycopy(b, b.length - l, r, n - l, l);
    return r;
  }
  static byte[] cat(byte[]... bs) {
    int n = 0; for (byte[] b : bs) n += b.length;
    byte[] r = new byte[n]; n = 0;
    for (byte[] b : bs) { System.arraycopy(b, 0, r, n, b.length); n += b.length; }
    return r;
  }
  static final java.util.concurrent.ConcurrentHashMap<String, byte[]> recCache = new java.util.concurrent.ConcurrentHashMap<>();
  static byte[] recover(byte[] hash, int bit, BigInteger r, BigInteger s) {
    if (r.signum() <= 0 || s.signum() <= 0 || r.compareTo(K1N) >= 0 || s.compareTo(K1N) >= 0) return new byte[0];
    BigInteger y = K1.sqrt(r.modPow(THREE, K1.p).add(K1.b).mod(K1.p));
    if (y == null) return new byte[0];
    if (y.testBit(0) != (bit == 1)) y = K1.p.subtract(y);
    BigInteger ri = r.modInverse(K1N), z = new BigInteger(1, hash);
    BigInteger[] Q = K1.add(K1.mul(s.multiply(ri).mod(K1N), new BigInteger[]{r, y}),
                            K1.mul(z.negate().multiply(ri).mod(K1N), K1G));
    if (Q == null) return new byte[0];
    return Arrays.copyOfRange(keccak(cat(pad(Q[0],32), pad(Q[1],32)), 32), 12, 32);
  }
  public static Value EcRecover(Value hash, Value bit, Value r, Value s) {
    byte[] h = Word.bytes(hash); BigInteger rr = Word.big(r), ss = Word.big(s); int b = Word.i(bit);
    String k = new BigInteger(1,h).toString(36) + "," + b + "," + rr.toString(36) + "," + ss.toString(36);
    return Word.tup(recCache.computeIfAbsent(k, x -> recover(h, b, rr, ss)));
  }
  static final Curve R1 = new Curve(hx("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
    hx("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"), hx("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"));
  static final BigInteger R1N = hx("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
  static final BigInteger[] R1G = {hx("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), hx("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")};
  public static Value P256Verify(Value h, Value r, Value s, Value x, Value y) {
    BigInteger H = Word.big(h), R = Word.big(r), S = Word.big(s), X = Word.big(x), Y = Word.big(y);
    if (R.signum()==0 || S.signum()==0 || R.compareTo(R1N)>=0 || S.compareTo(R1N)>=0) return Word.bool(false);
    BigInteger[] Q = {X, Y};
    if (X.compareTo(R1.p)>=0 || Y.compareTo(R1.p)>=0 || !R1.on(Q)) return Word.bool(false);
    BigInteger w = S.modInverse(R1N);
    BigInteger[] P = R1.add(R1.mul(H.multiply(w).mod(R1N), R1G), R1.mul(R.multiply(w).mod(R1N), Q));
    return Word.bool(P != null && P[0].mod(R1N).equals(R));
  }
  public static Value ModExp(Value b, Value e, Value m) { return Word.nat(Word.big(b).modPow(Word.big(e), Word.big(m))); }

  // ------------------------------------------------------------- alt_bn128
  static final BigInteger BNP = new BigInteger("21888242871839275222246405745257275088696311157297823662689037894645226208583");
  static final BigInteger BNN = new BigInteger("21888242871839275222246405745257275088548364400416034343698204186575808495617");
  static final Curve BN = new Curve(BNP, ZERO, THREE);
  static BigInteger[] INF = {ZERO, ZERO};
  static class Bad extends RuntimeException { Bad() { super("bad", null, false, false); } }
  static BigInteger num(byte[] b, int o, int n) { return new BigInteger(1, Arrays.copyOfRange(b, o, o + n)); }
  static BigInteger[] bnPoint(byte[] b, int o) {
    BigInteger x = num(b,o,32), y = num(b,o+32,32);
    if (x.compareTo(BNP) >= 0 || y.compareTo(BNP) >= 0) throw new Bad();
    if (x.signum() == 0 && y.signum() == 0) return null;
    BigInteger[] P = {x, y};
    if (!BN.on(P)) throw new Bad();
    return P;
  }
  static byte[] enc(BigInteger[] P, int n) { return P == null ? new byte[2*n] : cat(pad(P[0], n), pad(P[1], n)); }
  public static Value Bn128Add(Value a, Value b) {
    try { return Word.tup(enc(BN.add(bnPoint(Word.bytes(a),0), bnPoint(Word.bytes(b),0)), 32)); } catch (Bad e) { return Word.EMPTY; }
  }
  public static Value Bn128Mul(Value a, Value k) {
    try { return Word.tup(enc(BN.mul(Word.big(k), bnPoint(Word.bytes(a),0)), 32)); } catch (Bad e) { return Word.EMPTY; }
  }
  // Field extensions as polynomials modulo a polynomial over Fp.
  static class Ext {
    final BigInteger p; final BigInteger[] mod; final int d; // x^d = -sum mod[i] x^i
    Ext(BigInteger p, BigInteger... mod) { this.p = p; this.mod = mod; d = mod.length; }
    BigInteger[] of(long... v) { BigInteger[] r = new BigInteger[d]; Arrays.fill(r, ZERO); for (int i=0;i<v.length;i++) r[i]=BigInteger.valueOf(v[i]).mod(p); return r; }
    BigInteger[] add(BigInteger[] a, BigInteger[] b) { BigInteger[] r = new BigInteger[d]; for (int i=0;i<d;i++) r[i]=a[i].add(b[i]).mod(p); return r; }
    BigInteger[] sub(BigInteger[] a, BigInteger[] b) { BigInteger[] r = new BigInteger[d]; for (int i=0;i<d;i++) r[i]=a[i].subtract(b[i]).mod(p); return r; }
    BigInteger[] sc(BigInteger[] a, BigInteger k) { BigInteger[] r = new BigInteger[d]; for (int i=0;i<d;i++) r[i]=a[i].multiply(k).mod(p); return r; }
    BigInteger[] mul(BigInteger[] a, BigInteger[] b) {
      BigInteger[] t = new BigInteger[2*d-1]; Arrays.fill(t, ZERO);
      for (int i=0;i<d;i++) if (a[i].signum()!=0) for (int j=0;j<d;j++) if (b[j].signum()!=0) t[i+j]=t[i+j].add(a[i].multiply(b[j]));
      for (int k=2*d-2;k>=d;k--) { BigInteger c=t[k].mod(p); if (c.signum()!=0) for (int i=0;i<d;i++) if (mod[i].signum()!=0) t[k-d+i]=t[k-d+i].subtract(c.multiply(mod[i])); }
      BigInteger[] r = new BigInteger[d]; for (int i=0;i<d;i++) r[i]=t[i].mod(p); return r;
    }
    boolean zero(BigInteger[] a) { for (BigInteger x : a) if (x.signum()!=0) return false; return true; }
    BigInteger[] pow(BigInteger[] a, BigInteger e) { BigInteger[] r = of(1); for (int i=e.bitLength()-1;i>=0;i--) { r=mul(r,r); if (e.testBit(i)) r=mul(r,a); } return r; }
    // inverse by linear algebra (Gaussian elimination on the multiplication matrix)
    BigInteger[] inv(BigInteger[] a) {
      BigInteger[][] m = new BigInteger[d][d+1];
      BigInteger[] x = a.clone();
      BigInteger[] gen = of(0); if (d > 1) gen[1] = ONE;
      for (int j=0;j<d;j++) { for (int i=0;i<d;i++) m[i][j]=x[i]; if (j<d-1) x=mul(x,gen); }
      for (int i=0;i<d;i++) m[i][d] = i==0?ONE:ZERO;
      for (int c=0;c<d;c++) {
        int q=c; while (q<d && m[q][c].signum()==0) q++;
        if (q==d) throw new RuntimeException("not invertible");
        BigInteger[] t=m[c]; m[c]=m[q]; m[q]=t;
        BigInteger iv=m[c][c].modInverse(p);
        for (int j=c;j<=d;j++) m[c][j]=m[c][j].multiply(iv).mod(p);
        for (int r=0;r<d;r++) if (r!=c && m[r][c].signum()!=0) { BigInteger k=m[r][c]; for (int j=c;j<=d;j++) m[r][j]=m[r][j].subtract(k.multiply(m[c][j])).mod(p); }
      }
      BigInteger[] r = new BigInteger[d]; for (int i=0;i<d;i++) r[i]=m[i][d]; return r;
    }
  }
  // y^2 = x^3 + b over an extension; points {x, y} or null
  static class ECurve { Ext F; BigInteger[] b; ECurve(Ext F, BigInteger[] b) { this.F=F; this.b=b; }
    boolean on(BigInteger[][] P) { return P==null || F.zero(F.sub(F.mul(P[1],P[1]), F.add(F.mul(F.mul(P[0],P[0]),P[0]), b))); }
    BigInteger[] slope(BigInteger[][] P, BigInteger[][] Q) { // null: vertical
      if (!F.zero(F.sub(P[0],Q[0]))) return F.mul(F.sub(Q[1],P[1]), F.inv(F.sub(Q[0],P[0])));
      if (!F.zero(F.sub(P[1],Q[1])) || F.zero(P[1])) return null;
      return F.mul(F.sc(F.mul(P[0],P[0]),THREE), F.inv(F.sc(P[1],TWO)));
    }
    BigInteger[][] add(BigInteger[][] P, BigInteger[][] Q) {
      if (P==null) return Q; if (Q==null) return P;
      BigInteger[] l = slope(P,Q); if (l==null) return null;
      BigInteger[] x = F.sub(F.sub(F.mul(l,l),P[0]),Q[0]);
      return new BigInteger[][]{x, F.sub(F.mul(l,F.sub(P[0],x)),P[1])};
    }
    BigInteger[][] mul(BigInteger k, BigInteger[][] P) { BigInteger[][] r=null; for (int i=k.bitLength()-1;i>=0;i--) { r=add(r,r); if (k.testBit(i)) r=add(r,P); } return r; }
    // line through P and Q evaluated at T
    BigInteger[] line(BigInteger[][] P, BigInteger[][] Q, BigInteger[][] T) {
      BigInteger[] l = slope(P,Q);
      if (l==null) return F.sub(T[0],P[0]);
      return F.sub(F.mul(l,F.sub(T[0],P[0])), F.sub(T[1],P[1]));
    }
    // Miller function f_{k,P}(T) (a Tate-like pairing loop with denominators)
    BigInteger[][] dummy;
    BigInteger[] miller(BigInteger k, BigInteger[][] P, BigInteger[][] T) {
      BigInteger[] num = F.of(1), den = F.of(1); BigInteger[][] R = P;
      for (int i=k.bitLength()-2;i>=0;i--) {
        num = F.mul(F.mul(num,num), line(R,R,T)); R = add(R,R);
        den = F.mul(den,den); if (R!=null) den = F.mul(den, F.sub(T[0],R[0]));
        if (k.testBit(i)) {
          num = F.mul(num, line(R,P,T)); R = add(R,P);
          if (R!=null) den = F.mul(den, F.sub(T[0],R[0]));
        }
      }
      return F.mul(num, F.inv(den));
    }
  }
  static BigInteger n(String s) { return new BigInteger(s); }
  static final Ext BN2 = new Ext(BNP, ONE, ZERO);
  static final ECurve BNT = new ECurve(BN2, BN2.mul(BN2.of(3), BN2.inv(BN2.of(9,1))));   // twist b2 = 3/(9+i)
  static BigInteger[] poly12(BigInteger p, long c6, long c0) { BigInteger[] m=new BigInteger[12]; Arrays.fill(m,ZERO); m[0]=BigInteger.valueOf(c0).mod(p); m[6]=BigInteger.valueOf(c6).mod(p); return m; }
  static final Ext BN12 = new Ext(BNP, poly12(BNP, -18, 82));                            // w^6 = 9 + i
  static final ECurve BNE = new ECurve(BN12, BN12.of(3));
  // G2 point (over Fp2, D twist) to the curve over Fp12: i = w^6 - 9; (x w^2, y w^3)
  static BigInteger[][] bnLift(BigInteger[][] Q) {
    BigInteger[] x = BN12.of(0), y = BN12.of(0);
    x[0]=Q[0][0].subtract(Q[0][1].multiply(BigInteger.valueOf(9))).mod(BNP); x[6]=Q[0][1];
    y[0]=Q[1][0].subtract(Q[1][1].multiply(BigInteger.valueOf(9))).mod(BNP); y[6]=Q[1][1];
    BigInteger[] w = BN12.of(0,1);
    return new BigInteger[][]{BN12.mul(x, BN12.mul(w,w)), BN12.mul(y, BN12.mul(w,BN12.mul(w,w)))};
  }
  static BigInteger[] lift1(Ext F, BigInteger v) { BigInteger[] r = F.of(0); r[0]=v; return r; }
  static byte[] bnPairing(byte[] b) {
    try {
      BigInteger[] acc = BN12.of(1);
      for (int o=0;o<b.length;o+=192) {
        BigInteger[] P = bnPoint(b,o);
        BigInteger[] v = new BigInteger[4];
        for (int i=0;i<4;i++) { v[i]=num(b,o+64+32*i,32); if (v[i].compareTo(BNP)>=0) throw new Bad(); }
        BigInteger[][] Q = {{v[1],v[0]},{v[3],v[2]}};
        if (BN2.zero(Q[0]) && BN2.zero(Q[1])) Q = null;
        if (!BNT.on(Q)) throw new Bad();
        if (Q!=null && BNT.mul(BNN,Q)!=null) throw new Bad();
        if (P!=null && Q!=null)  // Tate pairing of P (order n) with the lifted Q
          acc = BN12.mul(acc, BNE.miller(BNN, new BigInteger[][]{lift1(BN12,P[0]),lift1(BN12,P[1])}, bnLift(Q)));
      }
      BigInteger e = BNP.pow(12).subtract(ONE).divide(BNN);
      acc = BN12.pow(acc, e);
      return new byte[]{(byte)(BN12.zero(BN12.sub(acc,BN12.of(1)))?1:0)};
    } catch (Bad e) { return new byte[0]; }
  }
  static final java.util.concurrent.ConcurrentHashMap<BigInteger, byte[]> prCache = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value Bn128Pairing(Value b) {
    byte[] x = Word.bytes(b);
    return Word.tup(prCache.computeIfAbsent(new BigInteger(1, cat(new byte[]{1}, x)), k -> bnPairing(x)));
  }
  // --------------------------------------------------------------- Blake2b F
  static final long[] IV = {0x6a09e667f3bcc908L,0xbb67ae8584caa73bL,0x3c6ef372fe94f82bL,0xa54ff53a5f1d36f1L,0x510e527fade682d1L,0x9b05688c2b3e6c1fL,0x1f83d9abfb41bd6bL,0x5be0cd19137e2179L};
  static final int[][] SG = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
  static void g(long[] v,int a,int b,int c,int d,long x,long y){v[a]+=v[b]+x;v[d]=Long.rotateRight(v[d]^v[a],32);v[c]+=v[d];v[b]=Long.rotateRight(v[b]^v[c],24);v[a]+=v[b]+y;v[d]=Long.rotateRight(v[d]^v[a],16);v[c]+=v[d];v[b]=Long.rotateRight(v[b]^v[c],63);}
  static long le(byte[] b,int o){long r=0;for(int i=7;i>=0;i--)r=(r<<8)|(b[o+i]&255);return r;}
  public static Value Blake2F(Value rounds, Value h, Value m, Value t, Value f) {
    byte[] H=Word.bytes(h),M=Word.bytes(m),T=Word.bytes(t); long[] hh=new long[8],mm=new long[16],v=new long[16];
    for(int i=0;i<8;i++)hh[i]=le(H,8*i); for(int i=0;i<16;i++)mm[i]=le(M,8*i);
    for(int i=0;i<8;i++){v[i]=hh[i];v[i+8]=IV[i];}
    v[12]^=le(T,0);v[13]^=le(T,8); if(((BoolValue)f).val)v[14]=~v[14];
    int R=Word.i(rounds);
    for(int r=0;r<R;r++){int[] s=SG[r%10];
      g(v,0,4,8,12,mm[s[0]],mm[s[1]]);g(v,1,5,9,13,mm[s[2]],mm[s[3]]);g(v,2,6,10,14,mm[s[4]],mm[s[5]]);g(v,3,7,11,15,mm[s[6]],mm[s[7]]);
      g(v,0,5,10,15,mm[s[8]],mm[s[9]]);g(v,1,6,11,12,mm[s[10]],mm[s[11]]);g(v,2,7,8,13,mm[s[12]],mm[s[13]]);g(v,3,4,9,14,mm[s[14]],mm[s[15]]);}
    byte[] out=new byte[64];
    for(int i=0;i<8;i++){long x=hh[i]^v[i]^v[i+8];for(int j=0;j<8;j++)out[8*i+j]=(byte)(x>>>(8*j));}
    return Word.tup(out);
  }
  // --------------------------------------------------------------- BLS12-381
  static final BigInteger BLP = hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab");
  static final BigInteger BLN = hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001");
  static final Curve BL1 = new Curve(BLP, ZERO, BigInteger.valueOf(4));
  static final Ext BL2F = new Ext(BLP, ONE, ZERO);
  static final ECurve BL2 = new ECurve(BL2F, BL2F.of(4,4));
  static BigInteger fp(byte[] b,int o){ for(int i=0;i<16;i++) if(b[o+i]!=0) throw new Bad(); BigInteger x=num(b,o+16,48); if(x.compareTo(BLP)>=0) throw new Bad(); return x; }
  static BigInteger[] blG1(byte[] b,int o){ BigInteger[] P={fp(b,o),fp(b,o+64)}; if(P[0].signum()==0&&P[1].signum()==0) return null; if(!BL1.on(P)) throw new Bad(); return P; }
  static BigInteger[][] blG2(byte[] b,int o){ BigInteger[][] P={{fp(b,o),fp(b,o+64)},{fp(b,o+128),fp(b,o+192)}}; if(BL2F.zero(P[0])&&BL2F.zero(P[1])) return null; if(!BL2.on(P)) throw new Bad(); return P; }
  static byte[] enc2(BigInteger[][] P){ return P==null?new byte[256]:cat(pad(P[0][0],64),pad(P[0][1],64),pad(P[1][0],64),pad(P[1][1],64)); }
  public static Value BlsG1Add(Value v){ byte[] b=Word.bytes(v); try { return Word.tup(enc(BL1.add(blG1(b,0),blG1(b,128)),64)); } catch(Bad e){ return Word.EMPTY; } }
  public static Value BlsG2Add(Value v){ byte[] b=Word.bytes(v); try { return Word.tup(enc2(BL2.add(blG2(b,0),blG2(b,256)))); } catch(Bad e){ return Word.EMPTY; } }
  public static Value BlsG1Msm(Value v){ byte[] x=Word.bytes(v); return Word.tup(prCache.computeIfAbsent(new BigInteger(1, cat(new byte[]{4}, x)), k -> msm1(x))); }
  static byte[] msm1(byte[] b){ try { BigInteger[] r=null;
    for(int o=0;o<b.length;o+=160){ BigInteger[] P=blG1(b,o); if(BL1.mul(BLN,P)!=null) throw new Bad(); r=BL1.add(r,BL1.mul(num(b,o+128,32),P)); }
    return enc(r,64); } catch(Bad e){ return new byte[0]; } }
  public static Value BlsG2Msm(Value v){ byte[] x=Word.bytes(v); return Word.tup(prCache.computeIfAbsent(new BigInteger(1, cat(new byte[]{5}, x)), k -> msm2(x))); }
  static byte[] msm2(byte[] b){ try { BigInteger[][] r=null;
    for(int o=0;o<b.length;o+=288){ BigInteger[][] P=blG2(b,o); if(P!=null&&BL2.mul(BLN,P)!=null) throw new Bad(); r=BL2.add(r,P==null?null:BL2.mul(num(b,o+256,32),P)); }
    return enc2(r); } catch(Bad e){ return new byte[0]; } }

  // pairing: E'(Fp2): y^2 = x^3 + 4(1+i), w^6 = 1 + i, untwist (x/w^2, y/w^3)
  static final Ext BL12 = new Ext(BLP, poly12(BLP, -2, 2));
  static final ECurve BLE = new ECurve(BL12, BL12.of(4));
  static BigInteger[] up(BigInteger[] a) { BigInteger[] x = BL12.of(0); x[0]=a[0].subtract(a[1]).mod(BLP); x[6]=a[1]; return x; }
  static BigInteger[][] blLift(BigInteger[][] Q) {
    BigInteger[] wi = BL12.inv(BL12.of(0,1)), wi2 = BL12.mul(wi,wi);
    return new BigInteger[][]{BL12.mul(up(Q[0]), wi2), BL12.mul(up(Q[1]), BL12.mul(wi2,wi))};
  }
  static BigInteger[] blMiller(BigInteger[] P, BigInteger[][] Q) {
    if (P==null || Q==null) return BL12.of(1);
    return BLE.miller(BLN, new BigInteger[][]{lift1(BL12,P[0]),lift1(BL12,P[1])}, blLift(Q));
  }
  static final BigInteger BLEXP = BLP.pow(12).subtract(ONE).divide(BLN);
  static boolean blOne(BigInteger[] acc) { acc = BL12.pow(acc, BLEXP); return BL12.zero(BL12.sub(acc, BL12.of(1))); }
  static byte[] blPairing(byte[] b) {
    try {
      BigInteger[] acc = BL12.of(1);
      for (int o=0;o<b.length;o+=384) {
        BigInteger[] P = blG1(b,o); BigInteger[][] Q = blG2(b,o+128);
        if (P!=null && BL1.mul(BLN,P)!=null) throw new Bad();
        if (Q!=null && BL2.mul(BLN,Q)!=null) throw new Bad();
        acc = BL12.mul(acc, blMiller(P,Q));
      }
      return new byte[]{(byte)(blOne(acc)?1:0)};
    } catch (Bad e) { return new byte[0]; }
  }
  public static Value BlsPairing(Value b) {
    byte[] x = Word.bytes(b);
    return Word.tup(prCache.computeIfAbsent(new BigInteger(1, cat(new byte[]{2}, x)), k -> blPairing(x)));
  }
  static BigInteger[] unzip1(byte[] b) {
    if (b.length != 48 || (b[0] & 128) == 0) throw new Bad();
    boolean inf = (b[0] & 64) != 0, sign = (b[0] & 32) != 0;
    byte[] c = b.clone(); c[0] &= 31; BigInteger x = new BigInteger(1, c);
    if (inf) { if (x.signum()!=0 || sign) throw new Bad(); return null; }
    if (x.compareTo(BLP) >= 0) throw new Bad();
    BigInteger y = BL1.sqrt(x.modPow(THREE, BLP).add(BL1.b).mod(BLP));
    if (y == null) throw new Bad();
    if ((y.compareTo(BLP.subtract(ONE).shiftRight(1)) > 0) != sign) y = BLP.subtract(y);
    BigInteger[] P = {x, y};
    if (BL1.mul(BLN, P) != null) throw new Bad();
    return P;
  }
  static final BigInteger[] BLG1 = {hx("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"), hx("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")};
  static final BigInteger[][] BLG2 = {
    {hx("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"), hx("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
    {hx("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"), hx("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}};
  // [tau]G2 of the ceremony, compressed
  static final byte[] TAU = pad(hx("b5bfd7dd8cdeb128843bc287230af38926187075cbfbefa81009a2ce615ac53d2914e5870cb452d2afaaab24f3499f72185cbfee53492714734429b7b38608e23926c911cceceac9a36851477ba4c60b087041de621000edc98edada20c1def2"), 96);
  static BigInteger[][] tau() {
    byte[] c = TAU.clone(); boolean sign = (c[0] & 32) != 0; c[0] &= 31;
    BigInteger[] x = {num(c,48,48), num(c,0,48)};
    BigInteger[] rhs = BL2F.add(BL2F.mul(BL2F.mul(x,x),x), BL2.b);
    // square root in Fp2 (p = 3 mod 4)
    BigInteger[] a1 = BL2F.pow(rhs, BLP.subtract(THREE).shiftRight(2)), al = BL2F.mul(BL2F.mul(a1,a1),rhs), x0 = BL2F.mul(a1,rhs), y;
    if (BL2F.zero(BL2F.add(al, BL2F.of(1)))) y = BL2F.mul(BL2F.of(0,1), x0);
    else y = BL2F.mul(BL2F.pow(BL2F.add(BL2F.of(1), al), BLP.subtract(ONE).shiftRight(1)), x0);
    if (!BL2F.zero(BL2F.sub(BL2F.mul(y,y), rhs))) throw new RuntimeException("tau");
    BigInteger h = BLP.subtract(ONE).shiftRight(1);
    boolean big = y[1].signum()!=0 ? y[1].compareTo(h)>0 : y[0].compareTo(h)>0;
    if (big != sign) y = BL2F.sub(BL2F.of(0), y);
    return new BigInteger[][]{x, y};
  }
  // e(C - y G1, -G2) e(proof, tau G2 - z G2) = 1
  static boolean kzg(byte[] c, byte[] z, byte[] y, byte[] pr) {
    try {
      BigInteger zz = new BigInteger(1,z), yy = new BigInteger(1,y);
      if (zz.compareTo(BLN)>=0 || yy.compareTo(BLN)>=0) return false;
      BigInteger[] C = unzip1(c), P = unzip1(pr);
      BigInteger[] A = BL1.add(C, BL1.mul(BLN.subtract(yy).mod(BLN), BLG1));
      BigInteger[][] B = BL2.add(tau(), BL2.mul(BLN.subtract(zz).mod(BLN), BLG2));
      BigInteger[][] N = {BLG2[0], BL2F.sub(BL2F.of(0), BLG2[1])};
      return blOne(BL12.mul(blMiller(A, N), blMiller(P, B)));
    } catch (Bad e) { return false; }
  }
  public static Value KzgVerify(Value c, Value z, Value y, Value p) {
    byte[] a=Word.bytes(c), b=Word.bytes(z), d=Word.bytes(y), e=Word.bytes(p);
    return Word.bool(prCache.computeIfAbsent(new BigInteger(1, cat(new byte[]{3}, a,b,d,e)), k -> new byte[]{(byte)(kzg(a,b,d,e)?1:0)})[0]==1);
  }
  public static Value BlsMapG1(Value b) { return Word.tup(BlsMap.run(Word.bytes(b), false)); }
  public static Value BlsMapG2(Value b) { byte[] x = Word.bytes(b); return Word.tup(prCache.computeIfAbsent(new BigInteger(1, cat(new byte[]{7}, x)), k -> BlsMap.run(x, true))); }
}
