import java.math.BigInteger;
import java.util.Arrays;
import tlc2.value.impl.*;

/** TLC overrides for Word.tla: same meaning, evaluated with BigInteger. */
public class Word {
  static final BigInteger M256 = BigInteger.ONE.shiftLeft(256);
  static final IntValue[] B = new IntValue[256];
  static { for (int i = 0; i < 256; i++) B[i] = IntValue.gen(i); }
  static final TupleValue EMPTY = new TupleValue(new Value[0]);

  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a byte sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static byte[] bytes(Value v) {
    Value[] e = elems(v);
    byte[] r = new byte[e.length];
    for (int i = 0; i < e.length; i++) r[i] = (byte) ((IntValue) e[i]).val;
    return r;
  }
  static TupleValue tup(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = B[b[i] & 255];
    return new TupleValue(e);
  }
  static BigInteger big(Value v) { return new BigInteger(1, bytes(v)); }
  static TupleValue nat(BigInteger x) {
    if (x.signum() == 0) return EMPTY;
    if (x.signum() < 0) throw new RuntimeException("negative natural");
    byte[] b = x.toByteArray();
    if (b[0] == 0) b = Arrays.copyOfRange(b, 1, b.length);
    return tup(b);
  }
  static TupleValue word(BigInteger x) { return nat(x.mod(M256)); }
  static BigInteger signed(Value v) {
    BigInteger x = big(v);
    return x.testBit(255) ? x.subtract(M256) : x;
  }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value NNorm(Value b) { return nat(big(b)); }
  public static Value RepByte(Value x, Value n) {
    int k = Math.max(0, i(n)); Value[] e = new Value[k]; Arrays.fill(e, x); return new TupleValue(e);
  }
  public static Value Zeros(Value n) { return RepByte(B[0], n); }
  public static Value Pad(Value b, Value n) {
    Value[] e = elems(b); int k = i(n); Value[] r = new Value[k];
    for (int j = 0; j < k; j++) { int s = e.length - k + j; r[j] = s < 0 ? B[0] : e[s]; }
    return new TupleValue(r);
  }
  public static Value JoinWords(Value s) {
    Value[] w = elems(s), r = new Value[32 * w.length];
    for (int q = 0; q < w.length; q++) {
      Value[] e = elems(w[q]);
      for (int j = 0; j < 32; j++) { int p = e.length - 32 + j; r[32 * q + j] = p < 0 ? B[0] : e[p]; }
    }
    return new TupleValue(r);
  }
  public static Value NInt(Value v) { return nat(BigInteger.valueOf(i(v))); }
  public static Value NSat(Value v) {
    BigInteger x = big(v);
    return x.bitLength() > 30 ? IntValue.gen(1073741823) : IntValue.gen(x.intValue());
  }
  public static Value NCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  public static Value NLt(Value a, Value b) { return bool(big(a).compareTo(big(b)) < 0); }
  public static Value NLe(Value a, Value b) { return bool(big(a).compareTo(big(b)) <= 0); }
  public static Value NAdd(Value a, Value b) { return nat(big(a).add(big(b))); }
  public static Value NSub(Value a, Value b) { return nat(big(a).subtract(big(b))); }
  public static Value NMul(Value a, Value b) { return nat(big(a).multiply(big(b))); }
  public static Value NDiv(Value a, Value b) { return nat(big(a).divide(big(b))); }
  public static Value NMod(Value a, Value b) { return nat(big(a).mod(big(b))); }
  public static Value NPow(Value a, Value k) { return nat(big(a).pow(i(k))); }
  public static Value NBits(Value a) { return IntValue.gen(big(a).bitLength()); }

  public static Value WNegate(Value a) { return word(big(a).negate()); }
  public static Value WAdd(Value a, Value b) { return word(big(a).add(big(b))); }
  public static Value WSub(Value a, Value b) { return word(big(a).subtract(big(b))); }
  public static Value WMul(Value a, Value b) { return word(big(a).multiply(big(b))); }
  public static Value WDiv(Value a, Value b) {
    BigInteger y = big(b); return y.signum() == 0 ? EMPTY : nat(big(a).divide(y)); }
  public static Value WMod(Value a, Value b) {
    BigInteger y = big(b); return y.signum() == 0 ? EMPTY : nat(big(a).mod(y)); }
  public static Value WSDiv(Value a, Value b) {
    BigInteger y = signed(b); return y.signum() == 0 ? EMPTY : word(signed(a).divide(y)); }
  public static Value WSMod(Value a, Value b) {
    BigInteger y = signed(b); return y.signum() == 0 ? EMPTY : word(signed(a).remainder(y)); }
  public static Value WAddMod(Value a, Value b, Value n) {
    BigInteger y = big(n); return y.signum() == 0 ? EMPTY : nat(big(a).add(big(b)).mod(y)); }
  public static Value WMulMod(Value a, Value b, Value n) {
    BigInteger y = big(n); return y.signum() == 0 ? EMPTY : nat(big(a).multiply(big(b)).mod(y)); }
  public static Value WExp(Value a, Value e) { return nat(big(a).modPow(big(e), M256)); }
  public static Value WSignExtend(Value k, Value a) {
    BigInteger kk = big(k);
    if (kk.compareTo(BigInteger.valueOf(30)) > 0) return a;
    int bit = kk.intValue() * 8 + 7;
    BigInteger x = big(a);
    BigInteger mask = BigInteger.ONE.shiftLeft(bit + 1).subtract(BigInteger.ONE);
    return x.testBit(bit) ? word(x.and(mask).subtract(mask).subtract(BigInteger.ONE)) : nat(x.and(mask));
  }
  public static Value WSLt(Value a, Value b) { return bool(signed(a).compareTo(signed(b)) < 0); }
  public static Value WAnd(Value a, Value b) { return nat(big(a).and(big(b))); }
  public static Value WOr(Value a, Value b) { return nat(big(a).or(big(b))); }
  public static Value WXor(Value a, Value b) { return nat(big(a).xor(big(b))); }
  public static Value WNot(Value a) { return nat(M256.subtract(BigInteger.ONE).subtract(big(a))); }
  public static Value WByte(Value k, Value a) {
    BigInteger kk = big(k);
    if (kk.bitLength() > 5) return EMPTY;
    return nat(big(a).shiftRight(8 * (31 - kk.intValue())).and(BigInteger.valueOf(255)));
  }
  public static Value WShl(Value s, Value a) {
    BigInteger k = big(s); return k.bitLength() > 8 ? EMPTY : word(big(a).shiftLeft(k.intValue())); }
  public static Value WShr(Value s, Value a) {
    BigInteger k = big(s); return k.bitLength() > 8 ? EMPTY : nat(big(a).shiftRight(k.intValue())); }
  public static Value WSar(Value s, Value a) {
    BigInteger k = big(s); return word(signed(a).shiftRight(k.bitLength() > 8 ? 256 : k.intValue())); }

  public static Value Slice(Value d, Value off, Value n) {
    Value[] e = elems(d); int o = i(off), k = Math.max(0, i(n)); Value[] r = new Value[k];
    for (int j = 0; j < k; j++) { long s = (long) o + j; r[j] = s < e.length ? e[(int) s] : B[0]; }
    return new TupleValue(r);
  }
  public static Value Splice(Value mem, Value off, Value b) {
    Value[] m = elems(mem).clone(); Value[] e = elems(b); int o = i(off);
    for (int j = 0; j < e.length && o + j < m.length; j++) m[o + j] = e[j];
    return new TupleValue(m);
  }
  public static Value CountZeros(Value b) {
    int n = 0; for (Value v : elems(b)) if (((IntValue) v).val == 0) n++; return IntValue.gen(n);
  }
  public static Value JumpDest(Value code, Value pos) {
    Value[] c = elems(code); int p = i(pos);
    for (int j = 0; j < c.length && j <= p; j++) {
      int op = ((IntValue) c[j]).val;
      if (j == p) return bool(op == 0x5b);
      if (op >= 0x60 && op <= 0x7f) j += op - 0x5f;
    }
    return BoolValue.ValFalse;
  }
  public static Value Hex(Value b) {
    StringBuilder s = new StringBuilder();
    for (Value v : elems(b)) s.append(String.format("%02x", ((IntValue) v).val));
    return new StringValue(s.toString());
  }
  static FcnRcdValue fcn(Value f) {
    Value v = f.toFcnRcd();
    if (v == null) throw new RuntimeException("not a function: " + f);
    return (FcnRcdValue) v;
  }
  static final TupleValue NOFCN = EMPTY;
  public static Value Put(Value f, Value k, Value v) {
    FcnRcdValue g = fcn(f);
    Value[] d = g.getDomainAsValues();
    for (int j = 0; j < d.length; j++) if (d[j].equals(k)) {
      Value[] r = g.values.clone(); r[j] = v;
      return new FcnRcdValue(d, r, g.isNormalized());
    }
    Value[] nd = Arrays.copyOf(d, d.length + 1), nv = Arrays.copyOf(g.values, d.length + 1);
    nd[d.length] = k; nv[d.length] = v;
    FcnRcdValue x = new FcnRcdValue(nd, nv, false);
    x.normalize();
    return x;
  }
  public static Value Del(Value f, Value k) {
    FcnRcdValue g = fcn(f);
    Value[] d = g.getDomainAsValues();
    for (int j = 0; j < d.length; j++) if (d[j].equals(k)) {
      Value[] nd = new Value[d.length - 1], nv = new Value[d.length - 1];
      for (int a = 0, b = 0; a < d.length; a++) if (a != j) { nd[b] = d[a]; nv[b++] = g.values[a]; }
      return new FcnRcdValue(nd, nv, g.isNormalized());
    }
    return f;
  }

  public static Value UnHex(Value v) {
    String s = ((StringValue) v).val.toString();
    Value[] e = new Value[s.length() / 2];
    for (int j = 0; j < e.length; j++)
      e[j] = B[16 * Character.digit(s.charAt(2 * j), 16) + Character.digit(s.charAt(2 * j + 1), 16)];
    return new TupleValue(e);
  }

  public static Value MapOf(Value ps) {
    Value[] e = elems(ps);
    java.util.LinkedHashMap<Value, Value> h = new java.util.LinkedHashMap<>();
    for (Value p : e) { Value[] kv = elems(p); h.putIfAbsent(kv[0], kv[1]); }
    FcnRcdValue x = new FcnRcdValue(h.keySet().toArray(new Value[0]), h.values().toArray(new Value[0]), false);
    x.normalize();
    return x;
  }
}
