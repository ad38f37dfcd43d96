import tlc2.value.impl.*;

/** Deep evaluation of a value: TLC's lazy function values become explicit. */
public class Eval {
  public static Value Force(Value v) {
    if (v instanceof IntValue || v instanceof StringValue || v instanceof BoolValue || v instanceof ModelValue) return v;
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      Value[] r = new Value[e.length];
      for (int i = 0; i < r.length; i++) r[i] = Force(e[i]);
      return new TupleValue(r);
    }
    if (v instanceof RecordValue) {
      RecordValue w = (RecordValue) v;
      Value[] r = new Value[w.values.length];
      for (int i = 0; i < r.length; i++) r[i] = Force(w.values[i]);
      return new RecordValue(w.names, r, w.isNormalized());
    }
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
      FcnRcdValue f = (FcnRcdValue) v.toFcnRcd();
      if (f == null) return v;
      Value t = f.toTuple();
      if (t != null && t instanceof TupleValue) return Force(t);
      Value[] r = new Value[f.values.length];
      for (int i = 0; i < r.length; i++) r[i] = Force(f.values[i]);
      if (f.domain != null) return new FcnRcdValue(f.domain, r, f.isNormalized());
      return new FcnRcdValue(f.intv, r);
    }
    return v;
  }
}
