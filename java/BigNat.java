import tlc2.value.impl.*;
import java.math.BigInteger;

public final class BigNat {
  public static Value NOfInt(final Value i) { return JV.nat(BigInteger.valueOf(JV.i(i))); }
  public static Value NToInt(final Value a) { return IntValue.gen(JV.big(a).intValueExact()); }
  public static Value NOfBytes(final Value b) { return JV.nat(new BigInteger(1, JV.bytes(b))); }
  public static Value NToBytes(final Value a, final Value n) {
    byte[] x = JV.big(a).toByteArray();
    byte[] out = new byte[JV.i(n)];
    for (int i = 0; i < out.length && i < x.length; i++) out[out.length - 1 - i] = x[x.length - 1 - i];
    return JV.seq(out);
  }
  public static Value NOfHex(final Value s) {
    String h = JV.str(s);
    return JV.nat(h.isEmpty() ? BigInteger.ZERO : new BigInteger(h, 16));
  }
  public static Value NAdd(final Value a, final Value b) { return JV.nat(JV.big(a).add(JV.big(b))); }
  public static Value NSub(final Value a, final Value b) { return JV.nat(JV.big(a).subtract(JV.big(b))); }
  public static Value NMul(final Value a, final Value b) { return JV.nat(JV.big(a).multiply(JV.big(b))); }
  public static Value NDiv(final Value a, final Value b) { return JV.nat(JV.big(a).divide(JV.big(b))); }
  public static Value NMod(final Value a, final Value b) { return JV.nat(JV.big(a).mod(JV.big(b))); }
  public static Value NLeq(final Value a, final Value b) { return JV.bool(JV.big(a).compareTo(JV.big(b)) <= 0); }
  public static Value NSum(final Value s) {
    BigInteger r = BigInteger.ZERO;
    for (Value e : JV.tup(s).elems) r = r.add(JV.big(e));
    return JV.nat(r);
  }
}
