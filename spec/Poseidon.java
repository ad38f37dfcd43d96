// TLC module override for Poseidon!RunPart (see PoseidonSelfTest.tla).
import java.math.BigInteger;
import java.util.Collections;
import java.util.Map;
import java.util.WeakHashMap;
import tlc2.value.impl.*;

public class Poseidon {
  static final class Layer {
    char k;
    BigInteger[] c;      // arc; add0 (one entry)
    BigInteger[][] M;    // mat; sparse: row 0 = <<a>> \o w, row 1 = v
  }
  /** schedules are large and reused: parsed once per value object */
  private static final class Key {
    final Value v;
    Key(Value v) { this.v = v; }
    public int hashCode() { return System.identityHashCode(v); }
    public boolean equals(Object o) { return o instanceof Key && ((Key) o).v == v; }
  }
  private static final java.util.LinkedHashMap<Key, Layer[]> CACHE =
      new java.util.LinkedHashMap<Key, Layer[]>(64, 0.75f, true) {
        protected boolean removeEldestEntry(Map.Entry<Key, Layer[]> e) { return size() > 64; }
      };

  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static BigInteger b(Value v) { return new BigInteger(str(v), 16); }
  static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Poseidon: sequence expected, got " + v);
    return ((TupleValue) t).elems;
  }
  static BigInteger[] bs(Value v) {
    Value[] e = seq(v);
    BigInteger[] r = new BigInteger[e.length];
    for (int i = 0; i < r.length; i++) r[i] = b(e[i]);
    return r;
  }
  static BigInteger[][] mat(Value v) {
    Value[] e = seq(v);
    BigInteger[][] r = new BigInteger[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = bs(e[i]);
    return r;
  }
  static Value fld(Value r, String f) {
    RecordValue x = (RecordValue) r.toRcd();
    Value y = x.select(new StringValue(f));
    if (y == null) throw new RuntimeException("Poseidon: no field " + f);
    return y;
  }
  static Layer[] layers(Value sched) {
    Key key = new Key(sched);
    synchronized (CACHE) {
      Layer[] hit = CACHE.get(key);
      if (hit != null) return hit;
    }
    Value[] e = seq(sched);
    Layer[] r = new Layer[e.length];
    for (int i = 0; i < r.length; i++) {
      Layer l = new Layer();
      String k = str(fld(e[i], "k"));
      switch (k) {
        case "arc": l.k = 'a'; l.c = bs(fld(e[i], "c")); break;
        case "full": l.k = 'f'; break;
        case "part": l.k = 'p'; break;
        case "mat": l.k = 'm'; l.M = mat(fld(e[i], "M")); break;
        case "add0": l.k = '0'; l.c = new BigInteger[] {b(fld(e[i], "c"))}; break;
        case "sparse": {
          l.k = 's';
          BigInteger[] w = bs(fld(e[i], "w"));
          BigInteger[] row = new BigInteger[w.length + 1];
          row[0] = b(fld(e[i], "a"));
          System.arraycopy(w, 0, row, 1, w.length);
          l.M = new BigInteger[][] {row, bs(fld(e[i], "v"))};
          break;
        }
        default: throw new RuntimeException("Poseidon: unknown layer " + k);
      }
      r[i] = l;
    }
    synchronized (CACHE) { CACHE.put(key, r); }
    return r;
  }

  public static Value RunPart(Value m, Value e, Value sched, Value s, Value a, Value z) {
    BigInteger p = b(m), x = b(e);
    Layer[] ls = layers(sched);
    BigInteger[] st = bs(s);
    int t = st.length;
    for (int i = ((IntValue) a).val - 1; i < ((IntValue) z).val; i++) {
      Layer l = ls[i];
      switch (l.k) {
        case 'a': {
          if (l.c.length != t) throw new RuntimeException("Poseidon: constants of another width");
          for (int j = 0; j < t; j++) st[j] = st[j].add(l.c[j]).mod(p);
          break;
        }
        case 'f': for (int j = 0; j < t; j++) st[j] = st[j].modPow(x, p); break;
        case 'p': st[0] = st[0].modPow(x, p); break;
        case '0': st[0] = st[0].add(l.c[0]).mod(p); break;
        case 'm': {
          BigInteger[] n = new BigInteger[l.M.length];
          for (int j = 0; j < n.length; j++) {
            BigInteger acc = BigInteger.ZERO;
            for (int k = 0; k < t; k++) acc = acc.add(l.M[j][k].multiply(st[k]));
            n[j] = acc.mod(p);
          }
          st = n;
          break;
        }
        case 's': {
          BigInteger acc = BigInteger.ZERO;
          for (int k = 0; k < t; k++) acc = acc.add(l.M[0][k].multiply(st[k]));
          BigInteger[] n = new BigInteger[t];
          n[0] = acc.mod(p);
          for (int k = 1; k < t; k++) n[k] = st[k].add(l.M[1][k - 1].multiply(st[0])).mod(p);
          st = n;
          break;
        }
      }
    }
    Value[] r = new Value[st.length];
    for (int j = 0; j < r.length; j++) r[j] = new StringValue(st[j].toString(16));
    return new TupleValue(r);
  }
}
