import java.math.BigInteger;
import tlc2.value.impl.*;

/** java.math.BigInteger implementation of the operators of BigFix.tla (same names, same values). */
public final class BigFix {
  static final int BITS = Integer.getInteger("bigfix.bits", 1200);   // 15 * K (the agreement check uses a smaller K)
  static final IntValue[] SMALL = new IntValue[32768];
  static final Value ZERO;
  static {
    for (int i = 0; i < 32768; i++) SMALL[i] = IntValue.gen(i);
    ZERO = new TupleValue(new Value[] { IntValue.gen(0) });
  }

  static BigInteger dec(final Value v0) {
    final Value[] e = ((TupleValue) v0.toTuple()).elems;
    final int s = ((IntValue) e[0]).val;
    if (s == 0) return BigInteger.ZERO;
    final int n = e.length - 1;
    final int bits = n * 15;
    final int[] w = new int[(bits + 31) / 32];          // little-endian 32-bit words
    for (int i = 0; i < n; i++) {
      final int d = ((IntValue) e[i + 1]).val;
      final int p = i * 15, q = p >>> 5, r = p & 31;
      w[q] |= d << r;
      if (r > 17) w[q + 1] |= d >>> (32 - r);
    }
    final byte[] b = new byte[w.length * 4];
    for (int i = 0; i < w.length; i++) {
      final int x = w[w.length - 1 - i];
      b[4 * i] = (byte) (x >>> 24); b[4 * i + 1] = (byte) (x >>> 16);
      b[4 * i + 2] = (byte) (x >>> 8); b[4 * i + 3] = (byte) x;
    }
    return new BigInteger(s, b);
  }

  static Value enc(final BigInteger x) {
    final int s = x.signum();
    if (s == 0) return ZERO;
    final BigInteger m = x.abs();
    final int n = (m.bitLength() + 14) / 15;
    final byte[] b = m.toByteArray();                    // big-endian
    final Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    for (int i = 0; i < n; i++) {
      final int p = i * 15, q = p >>> 3, r = p & 7;
      int v = 0;
      for (int j = 0; j < 3; j++) {
        final int k = b.length - 1 - (q + j);
        if (k >= 0) v |= (b[k] & 0xff) << (8 * j);
      }
      e[i + 1] = SMALL[(v >>> r) & 0x7fff];
    }
    return new TupleValue(e);
  }

  static int i(final Value v) { return ((IntValue) v).val; }

  /** (a*b) / 2^BITS rounded toward zero */
  static BigInteger mul(final BigInteger a, final BigInteger b) {
    final BigInteger p = a.multiply(b);
    return p.signum() < 0 ? p.negate().shiftRight(BITS).negate() : p.shiftRight(BITS);
  }
  static BigInteger div(final BigInteger a, final BigInteger b) { return a.shiftLeft(BITS).divide(b); }

  public static Value FInt(final Value a) { return enc(BigInteger.valueOf(i(a)).shiftLeft(BITS)); }
  public static Value FNeg(final Value a) { return enc(dec(a).negate()); }
  public static Value FAbs(final Value a) { return enc(dec(a).abs()); }
  public static Value FAdd(final Value a, final Value b) { return enc(dec(a).add(dec(b))); }
  public static Value FSub(final Value a, final Value b) { return enc(dec(a).subtract(dec(b))); }
  public static Value FMul(final Value a, final Value b) { return enc(mul(dec(a), dec(b))); }
  public static Value FDiv(final Value a, final Value b) { return enc(div(dec(a), dec(b))); }
  public static Value FMulI(final Value a, final Value k) { return enc(dec(a).multiply(BigInteger.valueOf(i(k)))); }
  public static Value FDivI(final Value a, final Value k) { return enc(dec(a).divide(BigInteger.valueOf(i(k)))); }
  public static Value FSqrt(final Value a) { return enc(dec(a).shiftLeft(BITS).sqrt()); }
  public static Value FCmp(final Value a, final Value b) { return IntValue.gen(dec(a).compareTo(dec(b))); }
  public static Value FDyadic(final Value s, final Value hi, final Value lo, final Value e) {
    if (i(s) == 0) return ZERO;
    BigInteger m = BigInteger.valueOf(((long) i(hi)) * 134217728L + (long) i(lo));
    final int t = i(e) + BITS;
    m = t >= 0 ? m.shiftLeft(t) : m.shiftRight(-t);
    return enc(i(s) < 0 ? m.negate() : m);
  }
}
