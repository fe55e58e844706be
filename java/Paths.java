import tlc2.value.impl.*;

public final class Paths {
  public static Value CommonLen(final Value a, final Value b) {
    int n = 0;
    if (a instanceof StringValue && b instanceof StringValue) {
      String p = JV.str(a), q = JV.str(b);
      while (n < p.length() && n < q.length() && p.charAt(n) == q.charAt(n)) n++;
    } else {
      Value[] p = JV.tup(a).elems, q = JV.tup(b).elems;
      while (n < p.length && n < q.length && p[n].equals(q[n])) n++;
    }
    return IntValue.gen(n);
  }
  public static Value HexAscii(final Value s) {
    String h = JV.str(s);
    Value[] e = new Value[h.length()];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(h.charAt(i));
    return new TupleValue(e);
  }
}
