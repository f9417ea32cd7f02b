import tlc2.value.impl.*;

/** TLC realisation of module F64 (IEEE-754 binary64 primitives). */
public class F64 {
  static double d(Value v) {
    Value[] e = v instanceof TupleValue ? ((TupleValue) v).elems : ((TupleValue) v.toTuple()).elems;
    return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
  }
  static Value v(double x) {
    long b = Double.doubleToRawLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value FAdd(Value a, Value b) { return v(d(a) + d(b)); }
  public static Value FSub(Value a, Value b) { return v(d(a) - d(b)); }
  public static Value FMul(Value a, Value b) { return v(d(a) * d(b)); }
  public static Value FDiv(Value a, Value b) { return v(d(a) / d(b)); }
  public static Value FNeg(Value a) { return v(-d(a)); }
  public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value FExp(Value a) { return v(StrictMath.exp(d(a))); }
  public static Value FLog(Value a) { return v(StrictMath.log(d(a))); }
  public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FInt(Value a) { return v(((IntValue) a).val); }
  public static Value FDec(Value a) { return v(Double.parseDouble(((StringValue) a).val.toString())); }
  public static Value FShow(Value a) { return new StringValue(Double.toString(d(a))); }
  public static Value FRound(Value a) { return IntValue.gen((int) Math.floor(d(a) + 0.5)); }
}
