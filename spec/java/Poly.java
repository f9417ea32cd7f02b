import tlc2.value.impl.*;
import util.UniqueString;

/** Fast evaluation of the operators marked (J) in module Poly. */
public class Poly extends LinAlg {
  static final StringValue SC = new StringValue(UniqueString.uniqueStringOf("c"));
  static final StringValue SE = new StringValue(UniqueString.uniqueStringOf("e"));
  static double mono(double c, int[] e, double[] z) {
    double p = 1;
    for (int i = 0; i < e.length; i++) {
      double q = 1;
      for (int k = 0; k < e[i]; k++) q = q * z[i];
      p = p * q;
    }
    return c * p;
  }
  static double eval(Value pv, double[] z, int v, int w) {
    double s = 0;
    for (Value m : el(pv)) {
      RecordValue r = (RecordValue) m.toRcd();
      double c = d((Value) r.select(SC));
      Value[] ev = el((Value) r.select(SE));
      int[] e = new int[ev.length];
      for (int i = 0; i < e.length; i++) e[i] = ((IntValue) ev[i]).val;
      for (int q : new int[] {v, w})
        if (q >= 0) { c = c * e[q]; if (e[q] > 0) e[q]--; }
      s += mono(c, e, z);
    }
    return s;
  }
  public static Value PVal(Value p, Value z) { return v(eval(p, vec(z), -1, -1)); }
  public static Value PDer(Value p, Value v, Value z) { return v(eval(p, vec(z), ((IntValue) v).val - 1, -1)); }
  public static Value PDer2(Value p, Value v, Value w, Value z) { return v(eval(p, vec(z), ((IntValue) v).val - 1, ((IntValue) w).val - 1)); }
}
