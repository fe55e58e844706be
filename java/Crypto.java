import tlc2.value.impl.*;
import java.security.*;
import java.security.spec.X509EncodedKeySpec;

public final class Crypto {
  private static final long[] IV = {
    0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L,
    0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L };
  private static final int[][] SIGMA = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
    {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
    {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
    {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
    {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0} };
  private static void g(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32);
    v[c] += v[d];     v[b] = Long.rotateRight(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16);
    v[c] += v[d];     v[b] = Long.rotateRight(v[b] ^ v[c], 63);
  }
  static byte[] blake2b256(byte[] in) {
    long[] h = IV.clone();
    h[0] ^= 0x01010000L ^ 32;
    int off = 0; long t = 0;
    while (true) {
      int left = in.length - off;
      boolean last = left <= 128;
      int n = Math.min(128, left);
      long[] m = new long[16];
      for (int i = 0; i < n; i++) m[i >> 3] |= (in[off + i] & 0xffL) << (8 * (i & 7));
      t += n; off += n;
      long[] v = new long[16];
      System.arraycopy(h, 0, v, 0, 8);
      System.arraycopy(IV, 0, v, 8, 8);
      v[12] ^= t;
      if (last) v[14] = ~v[14];
      for (int r = 0; r < 12; r++) {
        int[] s = SIGMA[r % 10];
        g(v,0,4,8,12,m[s[0]],m[s[1]]);   g(v,1,5,9,13,m[s[2]],m[s[3]]);
        g(v,2,6,10,14,m[s[4]],m[s[5]]);  g(v,3,7,11,15,m[s[6]],m[s[7]]);
        g(v,0,5,10,15,m[s[8]],m[s[9]]);  g(v,1,6,11,12,m[s[10]],m[s[11]]);
        g(v,2,7,8,13,m[s[12]],m[s[13]]); g(v,3,4,9,14,m[s[14]],m[s[15]]);
      }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
      if (last) break;
    }
    byte[] out = new byte[32];
    for (int i = 0; i < 32; i++) out[i] = (byte) (h[i >> 3] >>> (8 * (i & 7)));
    return out;
  }
  public static Value Blake2b256(final Value b) { return JV.seq(blake2b256(JV.bytes(b))); }

  private static final byte[] X509_PREFIX = {0x30,0x2a,0x30,0x05,0x06,0x03,0x2b,0x65,0x70,0x03,0x21,0x00};
  public static Value Ed25519Verify(final Value pub, final Value msg, final Value sig) {
    try {
      byte[] p = JV.bytes(pub);
      byte[] enc = new byte[12 + p.length];
      System.arraycopy(X509_PREFIX, 0, enc, 0, 12);
      System.arraycopy(p, 0, enc, 12, p.length);
      PublicKey k = KeyFactory.getInstance("Ed25519").generatePublic(new X509EncodedKeySpec(enc));
      Signature s = Signature.getInstance("Ed25519");
      s.initVerify(k);
      s.update(JV.bytes(msg));
      return JV.bool(s.verify(JV.bytes(sig)));
    } catch (GeneralSecurityException e) {
      return BoolValue.ValFalse;
    }
  }
  /** The public key of a seed: the JDK's key generator fed with the seed. */
  public static Value Ed25519Public(final Value seed) {
    final byte[] sd = JV.bytes(seed);
    try {
      KeyPairGenerator g = KeyPairGenerator.getInstance("Ed25519");
      g.initialize(java.security.spec.NamedParameterSpec.ED25519, new SecureRandom() {
        @Override public void nextBytes(byte[] b) { System.arraycopy(sd, 0, b, 0, b.length); }
      });
      byte[] enc = g.generateKeyPair().getPublic().getEncoded();
      return JV.seq(java.util.Arrays.copyOfRange(enc, enc.length - 32, enc.length));
    } catch (GeneralSecurityException e) {
      throw new RuntimeException(e);
    }
  }
}
