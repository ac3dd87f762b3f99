import java.math.BigInteger;
import tlc2.value.impl.*;

/** BigInteger implementation of the hot operators of Cplx.tla (same names; values equal up to last-bit rounding). */
public final class Cplx {
  static BigInteger re(final Value v) { return BigFix.dec(((TupleValue) v.toTuple()).elems[0]); }
  static BigInteger im(final Value v) { return BigFix.dec(((TupleValue) v.toTuple()).elems[1]); }
  static Value mk(final BigInteger r, final BigInteger i) {
    return new TupleValue(new Value[] { BigFix.enc(r), BigFix.enc(i) });
  }
  public static Value CAdd(final Value a, final Value b) { return mk(re(a).add(re(b)), im(a).add(im(b))); }
  public static Value CSub(final Value a, final Value b) { return mk(re(a).subtract(re(b)), im(a).subtract(im(b))); }
  public static Value CNeg(final Value a) { return mk(re(a).negate(), im(a).negate()); }
  public static Value CMul(final Value x, final Value y) {
    final BigInteger a = re(x), b = im(x), c = re(y), d = im(y);
    return mk(BigFix.mul(a, c).subtract(BigFix.mul(b, d)), BigFix.mul(a, d).add(BigFix.mul(b, c)));
  }
  public static Value CScale(final Value x, final Value a) {
    final BigInteger f = BigFix.dec(x);
    return mk(BigFix.mul(f, re(a)), BigFix.mul(f, im(a)));
  }
  public static Value CMulI(final Value a, final Value k) {
    final BigInteger f = BigInteger.valueOf(BigFix.i(k));
    return mk(re(a).multiply(f), im(a).multiply(f));
  }
  public static Value CDivI(final Value a, final Value k) {
    final BigInteger f = BigInteger.valueOf(BigFix.i(k));
    return mk(re(a).divide(f), im(a).divide(f));
  }
  public static Value CAbs2(final Value x) {
    final BigInteger a = re(x), b = im(x);
    return BigFix.enc(BigFix.mul(a, a).add(BigFix.mul(b, b)));
  }
  public static Value CDiv(final Value x, final Value y) {
    final BigInteger a = re(x), b = im(x), c = re(y), d = im(y);
    final BigInteger q = c.multiply(c).add(d.multiply(d));            // scaled by 2^(2 BITS)
    final BigInteger p = a.multiply(c).add(b.multiply(d)).shiftLeft(BigFix.BITS);
    final BigInteger r = b.multiply(c).subtract(a.multiply(d)).shiftLeft(BigFix.BITS);
    return mk(p.divide(q), r.divide(q));
  }
}
