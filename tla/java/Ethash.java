import java.util.Arrays;
import java.util.HashMap;
import tlc2.value.impl.*;

/** Evaluates the operators of Ethash.tla that are too slow as defined. */
public class Ethash {
  static int le(byte[] b, int o) { return (b[o]&255) | (b[o+1]&255)<<8 | (b[o+2]&255)<<16 | (b[o+3]&255)<<24; }
  static void put(byte[] b, int o, int x) { for (int i = 0; i < 4; i++) b[o+i] = (byte) (x >>> (8*i)); }
  static int fnv(int a, int b) { return a * 0x01000193 ^ b; }
  static int[] ints(byte[] b) { int[] r = new int[b.length/4]; for (int i = 0; i < r.length; i++) r[i] = le(b, 4*i); return r; }
  static byte[] bytes(int[] a) { byte[] r = new byte[4*a.length]; for (int i = 0; i < a.length; i++) put(r, 4*i, a[i]); return r; }
  public static Value Fnv(Value a, Value b) {
    byte[] r = new byte[4]; put(r, 0, fnv(le(Word.bytes(a), 0), le(Word.bytes(b), 0))); return Word.tup(r);
  }
  public static Value FnvMix(Value a, Value b) {
    int[] x = ints(Word.bytes(a)), y = ints(Word.bytes(b));
    for (int i = 0; i < x.length; i++) x[i] = fnv(x[i], y[i]);
    return Word.tup(bytes(x));
  }
  /** a cache as a TLA+ value is long; remember those made */
  static final HashMap<String, Value> made = new HashMap<>();
  public static synchronized Value EthashCache(Value lines, Value seed) {
    int n = ((IntValue) lines).val;
    String key = n + ":" + Arrays.toString(Word.bytes(seed));
    Value got = made.get(key);
    if (got != null) return got;
    byte[][] c = new byte[n][];
    c[0] = Crypto.keccak(Word.bytes(seed), 64);
    for (int i = 1; i < n; i++) c[i] = Crypto.keccak(c[i-1], 64);
    for (int r = 0; r < 3; r++)
      for (int i = 0; i < n; i++) {
        byte[] a = c[(i - 1 + n) % n], b = c[Integer.remainderUnsigned(le(c[i], 0), n)], x = new byte[64];
        for (int k = 0; k < 64; k++) x[k] = (byte) (a[k] ^ b[k]);
        c[i] = Crypto.keccak(x, 64);
      }
    byte[] all = new byte[64*n];
    for (int i = 0; i < n; i++) System.arraycopy(c[i], 0, all, 64*i, 64);
    Value v = Word.tup(all);
    made.put(key, v);
    return v;
  }
  static Value lastV; static int[] lastI;
  static synchronized int[] cacheInts(Value c) {
    if (c == lastV) return lastI;
    lastI = ints(Word.bytes(c)); lastV = c;
    return lastI;
  }
  public static Value DatasetItem(Value cv, Value iv) {
    int[] c = cacheInts(cv);
    int index = ((IntValue) iv).val, n = c.length / 16;
    int[] mix = Arrays.copyOfRange(c, 16*(index % n), 16*(index % n) + 16);
    mix[0] ^= index;
    mix = ints(Crypto.keccak(bytes(mix), 64));
    for (int j = 0; j < 256; j++) {
      int p = Integer.remainderUnsigned(fnv(index ^ j, mix[j % 16]), n);
      for (int k = 0; k < 16; k++) mix[k] = fnv(mix[k], c[16*p + k]);
    }
    return Word.tup(Crypto.keccak(bytes(mix), 64));
  }
}
