import tlc2.value.impl.*;
import java.util.concurrent.ConcurrentHashMap;

/** TLC override of module Doubles: IEEE doubles represented as TLA+ strings. */
public class Doubles {
  private static final ConcurrentHashMap<String, Double> cache = new ConcurrentHashMap<>();
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    String s = ((StringValue) v).getVal().toString();
    Double c = cache.get(s);
    if (c != null) return c;
    double r;
    switch (s) {
      case "inf": case "Infinity": r = Double.POSITIVE_INFINITY; break;
      case "-inf": case "-Infinity": r = Double.NEGATIVE_INFINITY; break;
      case "nan": case "-nan": case "NaN": r = Double.NaN; break;
      default: r = Double.parseDouble(s);
    }
    if (cache.size() > 2000000) cache.clear();
    cache.put(s, r);
    return r;
  }
  private static Value w(double x) { return new StringValue(Double.toString(x)); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value DAdd(Value a, Value c) { return w(d(a) + d(c)); }
  public static Value DSub(Value a, Value c) { return w(d(a) - d(c)); }
  public static Value DMul(Value a, Value c) { return w(d(a) * d(c)); }
  public static Value DDiv(Value a, Value c) { return w(d(a) / d(c)); }
  public static Value DPow(Value a, Value c) { return w(Math.pow(d(a), d(c))); }
  public static Value DMax(Value a, Value c) { return w(Math.max(d(a), d(c))); }
  public static Value DMin(Value a, Value c) { return w(Math.min(d(a), d(c))); }
  public static Value DAbs(Value a) { return w(Math.abs(d(a))); }
  public static Value DNeg(Value a) { return w(-d(a)); }
  public static Value DSqrt(Value a) { return w(Math.sqrt(d(a))); }
  public static Value DLog(Value a) { return w(Math.log(d(a))); }
  public static Value DLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value DLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value DEq(Value a, Value c) { double x = d(a), y = d(c); return b(x == y || (x != x && y != y)); }
  public static Value DFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value DOfInt(Value a) { return w(((IntValue) a).val); }
  public static Value DNear(Value a, Value c, Value rel, Value abs) {
    double x = d(a), y = d(c);
    if (x == y || (x != x && y != y)) return BoolValue.ValTrue;
    return b(Math.abs(x - y) <= d(abs) + d(rel) * Math.max(Math.abs(x), Math.abs(y)));
  }
  private static Value[] seq(Value s) { return ((TupleValue) s.toTuple()).elems; }
  public static Value DSumSeq(Value s) { double r = 0; for (Value v : seq(s)) r += d(v); return w(r); }
  public static Value DDot(Value s, Value t) {
    Value[] x = seq(s), y = seq(t); double r = 0;
    for (int i = 0; i < x.length; i++) r += d(x[i]) * d(y[i]);
    return w(r);
  }
  public static Value DAmaxSeq(Value s) { double r = 0; for (Value v : seq(s)) r = Math.max(r, Math.abs(d(v))); return w(r); }
}
