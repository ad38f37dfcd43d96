// TLC module override for FieldOps.tla: the operators' definitions evaluated
// with java.math.BigInteger.  FieldSelfTest.tla compares the two.
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class FieldOps {
  private static final ConcurrentHashMap<String, BigInteger> MODS = new ConcurrentHashMap<>();
  private static String str(Value v) { return ((StringValue) v).val.toString(); }
  private static BigInteger b(Value v) { return new BigInteger(str(v), 16); }
  private static BigInteger mod(Value v) {
    return MODS.computeIfAbsent(str(v), k -> new BigInteger(k, 16));
  }
  private static Value s(BigInteger x) { return new StringValue(x.toString(16)); }
  private static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("FieldOps: sequence expected, got " + v);
    return ((TupleValue) t).elems;
  }
  private static BigInteger[] bs(Value v) {
    Value[] e = seq(v);
    BigInteger[] r = new BigInteger[e.length];
    for (int i = 0; i < e.length; i++) r[i] = b(e[i]);
    return r;
  }
  private static Value tup(BigInteger[] x) {
    Value[] r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = s(x[i]);
    return new TupleValue(r);
  }
  private static BigInteger dot(BigInteger[] x, BigInteger[] y) {
    if (x.length != y.length) throw new RuntimeException("FieldOps: lengths differ");
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < x.length; i++)
      if (x[i].signum() != 0 && y[i].signum() != 0) r = r.add(x[i].multiply(y[i]));
    return r;
  }

  public static Value HexOf(Value n) { return s(BigInteger.valueOf(((IntValue) n).val)); }
  public static Value IntOf(Value h) { return IntValue.gen(b(h).intValueExact()); }

  public static Value FRed(Value m, Value a) { return s(b(a).mod(mod(m))); }
  public static Value FAdd(Value m, Value a, Value c) { return s(b(a).add(b(c)).mod(mod(m))); }
  public static Value FSub(Value m, Value a, Value c) { return s(b(a).subtract(b(c)).mod(mod(m))); }
  public static Value FNeg(Value m, Value a) { return s(b(a).negate().mod(mod(m))); }
  public static Value FMul(Value m, Value a, Value c) { return s(b(a).multiply(b(c)).mod(mod(m))); }
  public static Value FPow(Value m, Value a, Value e) { return s(b(a).modPow(b(e), mod(m))); }
  public static Value FInv0(Value m, Value a) {
    BigInteger p = mod(m), x = b(a).mod(p);
    return s(x.signum() == 0 ? x : x.modInverse(p));
  }
  public static Value FDot(Value m, Value x, Value y) { return s(dot(bs(x), bs(y)).mod(mod(m))); }
  public static Value FVAdd(Value m, Value x, Value y) {
    BigInteger p = mod(m);
    BigInteger[] u = bs(x), v = bs(y), r = new BigInteger[u.length];
    if (u.length != v.length) throw new RuntimeException("FieldOps: lengths differ");
    for (int i = 0; i < r.length; i++) r[i] = u[i].add(v[i]).mod(p);
    return tup(r);
  }
  public static Value FVScale(Value m, Value c, Value x) {
    BigInteger p = mod(m), k = b(c);
    BigInteger[] u = bs(x), r = new BigInteger[u.length];
    for (int i = 0; i < r.length; i++) r[i] = u[i].multiply(k).mod(p);
    return tup(r);
  }
  public static Value FVPow(Value m, Value x, Value e) {
    BigInteger p = mod(m), k = b(e);
    BigInteger[] u = bs(x), r = new BigInteger[u.length];
    for (int i = 0; i < r.length; i++) r[i] = u[i].modPow(k, p);
    return tup(r);
  }
  public static Value FMatVec(Value m, Value M, Value x) {
    BigInteger p = mod(m);
    BigInteger[] u = bs(x);
    Value[] rows = seq(M);
    BigInteger[] r = new BigInteger[rows.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(bs(rows[i]), u).mod(p);
    return tup(r);
  }
  public static Value FLin(Value m, Value c, Value V) {
    BigInteger p = mod(m);
    BigInteger[] k = bs(c);
    Value[] rows = seq(V);
    if (rows.length != k.length) throw new RuntimeException("FieldOps: lengths differ");
    BigInteger[] r = null;
    for (int i = 0; i < rows.length; i++) {
      BigInteger[] row = bs(rows[i]);
      if (r == null) {
        r = new BigInteger[row.length];
        java.util.Arrays.fill(r, BigInteger.ZERO);
      }
      if (row.length != r.length) throw new RuntimeException("FieldOps: lengths differ");
      for (int j = 0; j < r.length; j++)
        if (row[j].signum() != 0) r[j] = r[j].add(k[i].multiply(row[j]));
    }
    for (int j = 0; j < r.length; j++) r[j] = r[j].mod(p);
    return tup(r);
  }

  public static Value IAdd(Value a, Value c) { return s(b(a).add(b(c))); }
  public static Value ISub(Value a, Value c) {
    BigInteger r = b(a).subtract(b(c));
    if (r.signum() < 0) throw new RuntimeException("FieldOps: ISub below zero");
    return s(r);
  }
  public static Value IMul(Value a, Value c) { return s(b(a).multiply(b(c))); }
  public static Value IDiv(Value a, Value c) { return s(b(a).divide(b(c))); }
  public static Value IMod(Value a, Value c) { return s(b(a).mod(b(c))); }
  public static Value IPow(Value a, Value k) { return s(b(a).pow(((IntValue) k).val)); }
  public static Value IGcd(Value a, Value c) { return s(b(a).gcd(b(c))); }
  public static Value ICmp(Value a, Value c) { return IntValue.gen(b(a).compareTo(b(c))); }
  public static Value IBits(Value a) { return IntValue.gen(b(a).bitLength()); }

  public static Value ToLE(Value a, Value n) {
    BigInteger x = b(a);
    Value[] r = new Value[((IntValue) n).val];
    for (int i = 0; i < r.length; i++)
      r[i] = IntValue.gen(x.shiftRight(8 * i).and(BigInteger.valueOf(255)).intValue());
    return new TupleValue(r);
  }
  public static Value FromLE(Value v) {
    Value[] e = seq(v);
    BigInteger r = BigInteger.ZERO;
    for (int i = e.length - 1; i >= 0; i--)
      r = r.shiftLeft(8).or(BigInteger.valueOf(((IntValue) e[i]).val & 255));
    return s(r);
  }
}
