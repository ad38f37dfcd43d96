// TLC module override for Linear.tla: Det by Gaussian elimination.
// LinearSelfTest.tla compares it with the definitions.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Linear {
  public static Value Det(Value vm, Value va) {
    BigInteger p = new BigInteger(((StringValue) vm).val.toString(), 16);
    Value[] rows = ((TupleValue) va.toTuple()).elems;
    int n = rows.length;
    BigInteger[][] a = new BigInteger[n][n];
    for (int i = 0; i < n; i++) {
      Value[] r = ((TupleValue) rows[i].toTuple()).elems;
      if (r.length != n) throw new RuntimeException("Det: not square");
      for (int j = 0; j < n; j++) a[i][j] = new BigInteger(((StringValue) r[j]).val.toString(), 16).mod(p);
    }
    BigInteger det = BigInteger.ONE.mod(p);
    for (int k = 0; k < n; k++) {
      int q = k;
      while (q < n && a[q][k].signum() == 0) q++;
      if (q == n) return new StringValue("0");
      if (q != k) { BigInteger[] t = a[q]; a[q] = a[k]; a[k] = t; det = det.negate().mod(p); }
      det = det.multiply(a[k][k]).mod(p);
      BigInteger inv = a[k][k].modInverse(p);
      for (int i = k + 1; i < n; i++) {
        if (a[i][k].signum() == 0) continue;
        BigInteger f = a[i][k].multiply(inv).mod(p);
        for (int j = k; j < n; j++) a[i][j] = a[i][j].subtract(f.multiply(a[k][j])).mod(p);
      }
    }
    return new StringValue(det.toString(16));
  }
}
