import tlc2.value.impl.*;
import java.math.BigInteger;

/** The supply after a block, from the recurrence, with a table of every 65536th value. */
public final class Emission {
  static final long TOTAL = 2100000000000000L, INITIAL = 252000000000000L;
  static final int TAIL = 48692960;
  private static long[] table = {INITIAL};
  static long step(long supply, int h) {
    if (h == 0) return supply;
    long rem = TOTAL - supply;
    return supply + (h >= TAIL && rem >= 4000 ? 4000 : rem / 4194304);
  }
  private static synchronized long start(int i) {
    while (table.length <= i) {
      int n = table.length;
      long s = table[n - 1];
      for (int h = (n - 1 << 16) + 1; h <= n << 16; h++) s = step(s, h);
      table = java.util.Arrays.copyOf(table, n + 1);
      table[n] = s;
    }
    return table[i];
  }
  static long after(int h) {
    long s = start(h >>> 16);
    for (int k = (h & ~0xffff) + 1; k <= h; k++) s = step(s, k);
    return s;
  }
  public static Value SupplyAfter(final Value h) {
    return JV.nat(BigInteger.valueOf(after(JV.i(h))));
  }
}
