// TLC module override for Sparse!SLin (see SparseSelfTest.tla).
import java.math.BigInteger;
import java.util.Map;
import java.util.TreeMap;
import tlc2.value.impl.*;

public class Sparse {
  private static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Sparse: sequence expected, got " + v);
    return ((TupleValue) t).elems;
  }
  private static BigInteger b(Value v) { return new BigInteger(((StringValue) v).val.toString(), 16); }
  public static Value SLin(Value m, Value c, Value F) {
    BigInteger p = b(m);
    Value[] cs = seq(c), fs = seq(F);
    if (cs.length != fs.length) throw new RuntimeException("Sparse: lengths differ");
    TreeMap<Integer, BigInteger> r = new TreeMap<>();
    for (int k = 0; k < cs.length; k++) {
      BigInteger x = b(cs[k]);
      for (Value e : seq(fs[k])) {
        Value[] pr = seq(e);
        int i = ((IntValue) pr[0]).val;
        BigInteger y = b(pr[1]).multiply(x);
        BigInteger old = r.get(i);
        r.put(i, old == null ? y : old.add(y));
      }
    }
    java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    for (Map.Entry<Integer, BigInteger> e : r.entrySet()) {
      BigInteger y = e.getValue().mod(p);
      if (y.signum() != 0)
        out.add(new TupleValue(new Value[] {IntValue.gen(e.getKey()), new StringValue(y.toString(16))}));
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
}
