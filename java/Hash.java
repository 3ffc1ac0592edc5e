import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/** Keccak-256 for Hash.tla; hashes and addresses are 0x strings, amounts decimal strings. */
public class Hash {
  private static final long[] RC = {1L, 0x8082L, 0x800000000000808AL, 0x8000000080008000L, 0x808BL, 0x80000001L, 0x8000000080008081L,
    0x8000000000008009L, 0x8AL, 0x88L, 0x80008009L, 0x8000000AL, 0x8000808BL, 0x800000000000008BL, 0x8000000000008089L,
    0x8000000000008003L, 0x8000000000008002L, 0x8000000000000080L, 0x800AL, 0x800000008000000AL, 0x8000000080008081L,
    0x8000000000008080L, 0x80000001L, 0x8000000080008008L};

  static void f(long[] a) {
    long[] c = new long[5], b = new long[25];
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
        for (int y = 0; y < 25; y += 5) a[x + y] ^= d;
      }
      int x = 1, y = 0;
      b[0] = a[0];
      for (int t = 0; t < 24; t++) {
        int rot = ((t + 1) * (t + 2) / 2) % 64;
        int nx = y, ny = (2 * x + 3 * y) % 5;
        b[nx + 5 * ny] = Long.rotateLeft(a[x + 5 * y], rot);
        x = nx; y = ny;
      }
      for (y = 0; y < 25; y += 5)
        for (x = 0; x < 5; x++) a[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & b[y + (x + 2) % 5]);
      a[0] ^= RC[r];
    }
  }

  static byte[] keccak(byte[] in) {
    int rate = 136;
    byte[] p = new byte[(in.length / rate + 1) * rate];
    System.arraycopy(in, 0, p, 0, in.length);
    p[in.length] ^= 1;
    p[p.length - 1] ^= (byte) 0x80;
    long[] a = new long[25];
    for (int o = 0; o < p.length; o += rate) {
      for (int i = 0; i < rate; i++) a[i / 8] ^= (p[o + i] & 0xFFL) << (8 * (i % 8));
      f(a);
    }
    byte[] out = new byte[32];
    for (int i = 0; i < 32; i++) out[i] = (byte) (a[i / 8] >>> (8 * (i % 8)));
    return out;
  }

  static byte[] unhex(String s) {
    if (s.startsWith("0x")) s = s.substring(2);
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return b;
  }

  static String hex(byte[] b) {
    StringBuilder s = new StringBuilder("0x");
    for (byte x : b) s.append(String.format("%02x", x));
    return s.toString();
  }

  private static String str(Value v) { return ((StringValue) v).val.toString(); }

  public static Value LeafHash(final Value addr, final Value amt) {
    byte[] a = unhex(str(addr)), in = new byte[52];
    System.arraycopy(a, 0, in, 0, 20);
    byte[] n = new BigInteger(str(amt)).toByteArray();
    for (int i = 0; i < n.length && i < 32; i++) in[51 - i] = n[n.length - 1 - i];
    return new StringValue(hex(keccak(in)));
  }

  public static Value PairHash(final Value x, final Value y) {
    byte[] a = unhex(str(x)), b = unhex(str(y));
    int c = str(x).compareTo(str(y));
    byte[] in = new byte[a.length + b.length];
    byte[] lo = c <= 0 ? a : b, hi = c <= 0 ? b : a;
    System.arraycopy(lo, 0, in, 0, lo.length);
    System.arraycopy(hi, 0, in, lo.length, hi.length);
    return new StringValue(hex(keccak(in)));
  }

  public static Value AddrLt(final Value x, final Value y) {
    return str(x).compareTo(str(y)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
