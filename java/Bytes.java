import tlc2.value.impl.*;
import java.util.ArrayList;

public final class Bytes {
  private static final char[] HEX = "0123456789abcdef".toCharArray();
  public static Value HexToBytes(final Value s) {
    String h = JV.str(s);
    Value[] e = new Value[h.length() / 2];
    for (int i = 0; i < e.length; i++)
      e[i] = IntValue.gen(Character.digit(h.charAt(2 * i), 16) * 16 + Character.digit(h.charAt(2 * i + 1), 16));
    return new TupleValue(e);
  }
  public static Value BytesToHex(final Value v) {
    byte[] b = JV.bytes(v);
    char[] c = new char[2 * b.length];
    for (int i = 0; i < b.length; i++) { c[2*i] = HEX[(b[i] >> 4) & 15]; c[2*i+1] = HEX[b[i] & 15]; }
    return new StringValue(new String(c));
  }
  public static Value JoinAll(final Value v) {
    ArrayList<Value> out = new ArrayList<>();
    for (Value e : JV.tup(v).elems) for (Value x : JV.tup(e).elems) out.add(x);
    return new TupleValue(out.toArray(new Value[0]));
  }
  public static Value BitOfByte(final Value x, final Value i) {
    return IntValue.gen((JV.i(x) >> (7 - JV.i(i))) & 1);
  }
}
