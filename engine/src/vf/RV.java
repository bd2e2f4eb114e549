package vf;

import tlc2.value.impl.*;
import tlc2.value.impl.Value;

/** A real number as module Real sees it: a double plus a first-order bound on the rounding error that
 *  any reasonable double evaluation of the same formula can have accumulated. */
public final class RV extends UserObj {
  public static final double U = 1.1102230246251565e-16;
  public final double v, e;
  public RV(double v, double e) { this.v = v; this.e = e; }
  public static Value mk(double v, double e) { return new UserValue(new RV(v, e != e ? Double.POSITIVE_INFINITY : e)); }
  private static final java.util.concurrent.ConcurrentHashMap<Object, RV> LIT = new java.util.concurrent.ConcurrentHashMap<>();
  public static RV of(Value x) {
    if (x instanceof UserValue) return (RV) ((UserValue) x).userObj;
    if (x instanceof IntValue) return new RV(((IntValue) x).val, 0);
    if (x instanceof StringValue) {
      Object k = ((StringValue) x).val;
      RV r = LIT.get(k);
      if (r == null) { r = new RV(Double.parseDouble(((StringValue) x).val.toString()), 0); LIT.put(k, r); }
      return r;
    }
    if (x instanceof tlc2.value.impl.LazyValue) throw new RuntimeException("lazy");
    throw new RuntimeException("Real: not a number: " + x);
  }
  public int compareTo(Value s) { return Double.compare(v, of(s).v); }
  public boolean member(Value x) { return false; }
  public boolean isFinite() { return false; }
  public StringBuffer toString(StringBuffer sb, int o, boolean sw) { return sb.append('"').append(v).append('"'); }
}
