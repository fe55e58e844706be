import tlc2.value.impl.*;
import java.math.BigInteger;

/** Conversions between TLC values and Java values. */
public final class JV {
  static TupleValue tup(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return (TupleValue) t;
  }
  static byte[] bytes(Value v) {
    TupleValue t = tup(v);
    byte[] b = new byte[t.elems.length];
    for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
    return b;
  }
  static Value seq(byte[] b) { return seq(b, 0, b.length); }
  static Value seq(byte[] b, int from, int to) {
    Value[] e = new Value[to - from];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(b[from + i] & 0xff);
    return new TupleValue(e);
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  /** BigNat value (little-endian digits) to BigInteger. */
  static BigInteger big(Value v) {
    TupleValue t = tup(v);
    int n = t.elems.length;
    byte[] b = new byte[n];
    for (int i = 0; i < n; i++) b[n - 1 - i] = (byte) ((IntValue) t.elems[i]).val;
    return new BigInteger(1, b);
  }
  static Value nat(BigInteger x) {
    if (x.signum() < 0) throw new RuntimeException("negative BigNat");
    byte[] b = x.toByteArray();
    int start = 0;
    while (start < b.length && b[start] == 0) start++;
    Value[] e = new Value[b.length - start];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(b[b.length - 1 - i] & 0xff);
    return new TupleValue(e);
  }
}
