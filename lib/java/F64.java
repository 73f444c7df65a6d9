// Java implementation of the operators declared in spec/F64.tla (TLC module
// override): IEEE-754 double arithmetic for TLC, whose own integers are 32-bit.
//
// A number is any of: a TLA+ integer; a string holding a decimal literal (as
// the conformance drivers write them, %.17g, also "nan", "inf", "-inf"); or the
// pair <<hi, lo>> of the 32-bit halves of the IEEE-754 encoding, which is what
// every operator here returns.
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class F64 {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "nan": case "-nan": return Double.NaN;
        case "inf": return Double.POSITIVE_INFINITY;
        case "-inf": return Double.NEGATIVE_INFINITY;
        default:
          try {
            return Double.parseDouble(s);
          } catch (NumberFormatException e) {  // text where a number should be
            return Double.NaN;
          }
      }
    }
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.size() != 2)
      throw new RuntimeException("F64: not a number: " + v);
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }

  private static Value v(double x) {
    if (x == 0) x = 0.0;  // one zero
    long b = Double.doubleToLongBits(x);
    return new TupleValue(
        new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }

  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  private static double[] seq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) throw new RuntimeException("F64: not a sequence: " + s);
    double[] r = new double[t.size()];
    for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
    return r;
  }

  private static Value seq(double[] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = v(a[i]);
    return new TupleValue(r);
  }

  public static Value F(Value a) { return v(d(a)); }
  public static Value FAdd(Value a, Value c) { return v(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return v(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return v(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return v(d(a) / d(c)); }
  public static Value FMax(Value a, Value c) { return v(Math.max(d(a), d(c))); }
  public static Value FMin(Value a, Value c) { return v(Math.min(d(a), d(c))); }
  public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value FLog10(Value a) { return v(Math.log10(d(a))); }
  public static Value FLn(Value a) { return v(Math.log(d(a))); }
  public static Value FExp(Value a) { return v(Math.exp(d(a))); }
  public static Value FPow(Value a, Value c) { return v(Math.pow(d(a), d(c))); }
  public static Value FSin(Value a) { return v(Math.sin(d(a))); }
  public static Value FCos(Value a) { return v(Math.cos(d(a))); }
  // As held in a C float.
  public static Value FSingle(Value a) { return v((double) (float) d(a)); }

  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FFinite(Value a) {
    double x = d(a);
    return b(!Double.isNaN(x) && !Double.isInfinite(x));
  }
  // |a - c| <= tol * max(1, |c|); a NaN is near nothing but a NaN.
  public static Value FNear(Value a, Value c, Value tol) {
    double x = d(a), y = d(c), t = d(tol);
    if (Double.isNaN(x) || Double.isNaN(y))
      return b(Double.isNaN(x) && Double.isNaN(y));
    if (Double.isInfinite(x) || Double.isInfinite(y)) return b(x == y);
    return b(Math.abs(x - y) <= t * Math.max(1.0, Math.abs(y)));
  }

  private static int clampInt(double x) {
    if (Double.isNaN(x)) return 0;
    return (int) Math.max(-2147483647.0, Math.min(2147483647.0, x));
  }
  public static Value FFloor(Value a) { return IntValue.gen(clampInt(Math.floor(d(a)))); }
  public static Value FCeil(Value a) { return IntValue.gen(clampInt(Math.ceil(d(a)))); }
  public static Value FTrunc(Value a) { double x = d(a);
    return IntValue.gen(clampInt(x < 0 ? Math.ceil(x) : Math.floor(x))); }
  public static Value FRound(Value a) { double x = d(a);
    return IntValue.gen(clampInt(x < 0 ? -Math.floor(-x + 0.5) : Math.floor(x + 0.5))); }
  public static Value FStr(Value a) {
    double x = d(a);
    String s = x == Math.rint(x) && Math.abs(x) < 1e15 ? Long.toString((long) x)
                                                      : Double.toString(x);
    return new StringValue(s);
  }

  // Sequences of numbers.
  public static Value FSum(Value s) {
    double r = 0;
    for (double x : seq(s)) r += x;
    return v(r);
  }
  public static Value FSumSq(Value s) {
    double r = 0;
    for (double x : seq(s)) r += x * x;
    return v(r);
  }
  public static Value FDot(Value s, Value t) {
    double[] x = seq(s), y = seq(t);
    double r = 0;
    for (int i = 0; i < x.length; i++) r += x[i] * y[i];
    return v(r);
  }
  public static Value FSeqMax(Value s) {
    double r = Double.NEGATIVE_INFINITY;
    for (double x : seq(s)) r = Math.max(r, x);
    return v(r);
  }
  public static Value FSeqMin(Value s) {
    double r = Double.POSITIVE_INFINITY;
    for (double x : seq(s)) r = Math.min(r, x);
    return v(r);
  }
  public static Value FSorted(Value s) {
    double[] x = seq(s);
    java.util.Arrays.sort(x);
    return seq(x);
  }
  public static Value FScale(Value s, Value k) {
    double[] x = seq(s);
    double q = d(k);
    for (int i = 0; i < x.length; i++) x[i] *= q;
    return seq(x);
  }
  public static Value FSeqNear(Value s, Value t, Value tol) {
    double[] x = seq(s), y = seq(t);
    if (x.length != y.length) return b(false);
    double e = d(tol);
    for (int i = 0; i < x.length; i++) {
      if (Double.isNaN(x[i]) || Double.isNaN(y[i])) {
        if (!(Double.isNaN(x[i]) && Double.isNaN(y[i]))) return b(false);
      } else if (Double.isInfinite(x[i]) || Double.isInfinite(y[i])) {
        if (x[i] != y[i]) return b(false);
      } else if (!(Math.abs(x[i] - y[i]) <= e * Math.max(1.0, Math.abs(y[i])))) {
        return b(false);
      }
    }
    return b(true);
  }
}
