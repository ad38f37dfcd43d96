// TLC module override for Keccak.tla: Keccak-f[1600] on 200 bytes, on longs.
// KeccakSelfTest.tla compares it with the definition.
import tlc2.value.impl.*;

public class Keccak {
  private static long rot(long a, int n) { return n == 0 ? a : (a << n) | (a >>> (64 - n)); }
  public static Value KeccakF(Value vb) {
    Value[] e = ((TupleValue) vb.toTuple()).elems;
    if (e.length != 200) throw new RuntimeException("KeccakF: 200 bytes expected");
    long[] a = new long[25];
    for (int i = 0; i < 200; i++) {
      int v = ((IntValue) e[i]).val;
      if (v < 0 || v > 255) throw new RuntimeException("KeccakF: not a byte");
      a[i / 8] |= ((long) v) << (8 * (i % 8));
    }
    int lfsr = 1;
    for (int round = 0; round < 24; round++) {
      long[] c = new long[5];
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1);
        for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d;
      }
      // rho and pi along the orbit of (1, 0); offsets are triangular numbers
      int x = 1, y = 0;
      long cur = a[x + 5 * y];
      for (int t = 0; t < 24; t++) {
        int nx = y, ny = (2 * x + 3 * y) % 5;
        long next = a[nx + 5 * ny];
        a[nx + 5 * ny] = rot(cur, ((t + 1) * (t + 2) / 2) % 64);
        cur = next; x = nx; y = ny;
      }
      for (int r = 0; r < 5; r++) {
        long[] b = new long[5];
        for (int k = 0; k < 5; k++) b[k] = a[k + 5 * r];
        for (int k = 0; k < 5; k++) a[k + 5 * r] = b[k] ^ (~b[(k + 1) % 5] & b[(k + 2) % 5]);
      }
      // round constant bits from the degree-8 LFSR
      for (int j = 0; j < 7; j++) {
        if ((lfsr & 1) != 0) a[0] ^= 1L << ((1 << j) - 1);
        lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x171);
      }
    }
    Value[] o = new Value[200];
    for (int i = 0; i < 200; i++) o[i] = IntValue.gen((int) ((a[i / 8] >>> (8 * (i % 8))) & 255));
    return new TupleValue(o);
  }
}
