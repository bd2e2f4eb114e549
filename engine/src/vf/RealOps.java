package vf;

import static vf.RV.*;
import java.util.*;
import java.util.concurrent.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import tlc2.value.impl.Value;

/** Java evaluation of the operators of module Real. */
public class RealOps {
  static Value B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int I(Value x) { return ((IntValue) x).val; }

  @TLAPlusOperator(identifier = "+", module = "Real", warn = false)
  public static Value plus(final Value x, final Value y) {
    if (x instanceof IntValue && y instanceof IntValue) return IntValue.gen(Math.addExact(I(x), I(y)));
    RV a = of(x), b = of(y); double v = a.v + b.v; return mk(v, a.e + b.e + U * Math.abs(v));
  }
  @TLAPlusOperator(identifier = "-", module = "Real", warn = false)
  public static Value minus(final Value x, final Value y) {
    if (x instanceof IntValue && y instanceof IntValue) return IntValue.gen(Math.subtractExact(I(x), I(y)));
    RV a = of(x), b = of(y); double v = a.v - b.v; return mk(v, a.e + b.e + U * Math.abs(v));
  }
  @TLAPlusOperator(identifier = "*", module = "Real", warn = false)
  public static Value times(final Value x, final Value y) {
    if (x instanceof IntValue && y instanceof IntValue) return IntValue.gen(Math.multiplyExact(I(x), I(y)));
    RV a = of(x), b = of(y); double v = a.v * b.v;
    return mk(v, Math.abs(a.v) * b.e + Math.abs(b.v) * a.e + a.e * b.e + U * Math.abs(v));
  }
  @TLAPlusOperator(identifier = "/", module = "Real", warn = false)
  public static Value div(final Value x, final Value y) {
    RV a = of(x), b = of(y); double v = a.v / b.v;
    double d = Math.abs(b.v) - b.e; if (!(d > 0)) d = Double.MIN_NORMAL;
    return mk(v, (a.e + Math.abs(v) * b.e) / d + U * Math.abs(v));
  }
  @TLAPlusOperator(identifier = "-.", module = "Real", warn = false)
  public static Value neg(final Value x) {
    if (x instanceof IntValue) return IntValue.gen(-I(x));
    RV a = of(x); return mk(-a.v, a.e);
  }
  @TLAPlusOperator(identifier = "^", module = "Real", warn = false)
  public static Value pow(final Value x, final Value y) {
    RV a = of(x), b = of(y); double v = Math.pow(a.v, b.v);
    double de = a.v == 0 ? (b.v >= 1 ? (b.v == 1 ? a.e : 0) : (a.e == 0 ? 0 : Math.pow(a.e, b.v))) : Math.abs(v) * Math.abs(b.v) * a.e / Math.abs(a.v);
    if (Double.isNaN(v) && a.v < 0 && a.e > -a.v) { return mk(0, Math.pow(2 * a.e, b.v)); }
    double lb = a.v > 0 ? Math.abs(Math.log(a.v)) : 0;
    return mk(v, de + Math.abs(v) * (lb * b.e + U * (2 + Math.abs(b.v))));
  }
  @TLAPlusOperator(identifier = "<", module = "Real", warn = false)
  public static Value lt(final Value x, final Value y) { return B(of(x).v < of(y).v); }
  @TLAPlusOperator(identifier = ">", module = "Real", warn = false)
  public static Value gt(final Value x, final Value y) { return B(of(x).v > of(y).v); }
  @TLAPlusOperator(identifier = "\\leq", module = "Real", warn = false)
  public static Value le(final Value x, final Value y) { return B(of(x).v <= of(y).v); }
  @TLAPlusOperator(identifier = "\\geq", module = "Real", warn = false)
  public static Value ge(final Value x, final Value y) { return B(of(x).v >= of(y).v); }
  @TLAPlusOperator(identifier = "Eq", module = "Real", warn = false)
  public static Value eq(final Value x, final Value y) { return B(of(x).v == of(y).v); }
  @TLAPlusOperator(identifier = "..", module = "Real", warn = false)
  public static Value dotdot(final Value x, final Value y) { return new IntervalValue(I(x), I(y)); }
  @TLAPlusOperator(identifier = "%", module = "Real", warn = false)
  public static Value mod(final Value x, final Value y) { return IntValue.gen(Math.floorMod(I(x), I(y))); }
  @TLAPlusOperator(identifier = "Exp", module = "Real", warn = false)
  public static Value exp(final Value x) { RV a = of(x); double v = Math.exp(a.v); return mk(v, v * (a.e + 2 * U + U * Math.abs(a.v))); }
  @TLAPlusOperator(identifier = "Ln", module = "Real", warn = false)
  public static Value ln(final Value x) { RV a = of(x); double v = Math.log(a.v); return mk(v, a.e / Math.abs(a.v) + 2 * U * Math.abs(v)); }
  @TLAPlusOperator(identifier = "Sqrt", module = "Real", warn = false)
  public static Value sqrt(final Value x) {
    RV a = of(x); double v = Math.sqrt(a.v);
    if (a.v <= 2 * a.e && a.v >= -2 * a.e) return mk(a.v > 0 ? v : 0, Math.sqrt(4 * a.e));
    return mk(v, a.e / (2 * v) + U * v);
  }
  @TLAPlusOperator(identifier = "Abs", module = "Real", warn = false)
  public static Value abs(final Value x) { RV a = of(x); return mk(Math.abs(a.v), a.e); }
  /** the number itself, stripped of accumulated rounding uncertainty */
  @TLAPlusOperator(identifier = "Exact", module = "Real", warn = false)
  public static Value exact(final Value x) { return mk(of(x).v, 0); }
  @TLAPlusOperator(identifier = "Widen", module = "Real", warn = false)
  public static Value widen(final Value x, final Value d) { RV a = of(x); return mk(a.v, a.e + Math.abs(of(d).v)); }
  @TLAPlusOperator(identifier = "Err", module = "Real", warn = false)
  public static Value err(final Value x) { return mk(of(x).e, 0); }
  @TLAPlusOperator(identifier = "IsNum", module = "Real", warn = false)
  public static Value isnum(final Value x) {
    if (!(x instanceof UserValue || x instanceof IntValue)) return BoolValue.ValFalse;
    double v = of(x).v; return B(!Double.isNaN(v) && !Double.isInfinite(v));
  }
  @TLAPlusOperator(identifier = "Inf", module = "Real", warn = false)
  public static Value inf() { return mk(Double.POSITIVE_INFINITY, 0); }
  @TLAPlusOperator(identifier = "NaN", module = "Real", warn = false)
  public static Value nan() { return mk(Double.NaN, 0); }
  @TLAPlusOperator(identifier = "Ulps", module = "Real", warn = false)
  public static Value ulps(final Value x, final Value k) {
    double v = of(x).v; int n = I(k);
    for (int i = 0; i < n; i++) v = Math.nextUp(v);
    for (int i = 0; i > n; i--) v = Math.nextDown(v);
    return mk(v, 0);
  }
  /** deterministic pseudo-random number in [0,1) from the run's seed and a key */
  @TLAPlusOperator(identifier = "Rnd", module = "Real", warn = false)
  public static Value rnd(final Value k, final Value i, final Value j) {
    long z = SEED * 0x9E3779B97F4A7C15L + I(k) * 0xD1B54A32D192ED03L + I(i) * 0x94D049BB133111EBL + I(j) * 0xBF58476D1CE4E5B9L;
    for (int n = 0; n < 2; n++) { z ^= z >>> 30; z *= 0xBF58476D1CE4E5B9L; z ^= z >>> 27; z *= 0x94D049BB133111EBL; z ^= z >>> 31; }
    return mk((z >>> 11) * 0x1.0p-53, 0);
  }
  static final long SEED = Long.parseLong(System.getProperty("vf.seed", "1"));
  /** round to the nearest integer (for indices and region codes) */
  @TLAPlusOperator(identifier = "ToInt", module = "Real", warn = false)
  public static Value toInt(final Value x) { return IntValue.gen((int) Math.round(of(x).v)); }
  @TLAPlusOperator(identifier = "Div", module = "Real", warn = false)
  public static Value idiv(final Value x, final Value y) { return IntValue.gen(Math.floorDiv(I(x), I(y))); }
  @TLAPlusOperator(identifier = "Size", module = "Real", warn = false)
  public static Value size(final Value x) { return IntValue.gen(((TupleValue) x.toTuple()).elems.length); }
  /** a bound, chosen by the tier of the run */
  @TLAPlusOperator(identifier = "Scale", module = "Real", warn = false)
  public static Value scale(final Value q, final Value d) { return DEEP ? d : q; }
  static final boolean DEEP = "thorough".equals(System.getProperty("vf.tier"));
  // ---- numbers written in the implementation, as a dictionary of inputs
  static final java.util.Map<String, double[]> LITS = new java.util.HashMap<>();
  static {
    java.util.TreeSet<Double> all = new java.util.TreeSet<>();
    String f = System.getProperty("vf.lits");
    if (f != null) try { for (String l : java.nio.file.Files.readAllLines(java.nio.file.Paths.get(f))) if (!l.isEmpty()) all.add(Double.parseDouble(l)); }
    catch (java.io.IOException e) { throw new RuntimeException(e); }
    for (String q : new String[] { "p", "t", "h", "s", "v", "x" }) {
      java.util.TreeSet<Double> r = new java.util.TreeSet<>();
      for (double l : all) switch (q) {
        case "p": if (l >= 1e-9 && l <= 120) r.add(l); break;
        case "t": if (l >= 0 && l <= 2100) r.add(l); if (l >= 273 && l <= 2300) r.add(celsius(l)); break;
        case "h": if (l >= 0.01 && l <= 7500) r.add(l); break;
        case "s": if (l >= 1e-4 && l <= 20) { r.add(l); if (l < 0.05) r.add(-l); } break;
        case "v": if (l >= 9e-4 && l <= 2000) r.add(l); if (l >= 1 && l <= 1100) r.add(1 / l); break;
        case "x": if (l >= 0 && l <= 1) r.add(l); break;
      }
      if (r.isEmpty()) r.add(1.0);
      double[] a = new double[r.size()]; int i = 0; for (double d : r) a[i++] = d;
      LITS.put(q, a);
    }
  }
  /** a Celsius temperature that adds up to the kelvin temperature T exactly, if there is one */
  static double celsius(double T) {
    double t = T - 273.15;
    for (double c : new double[] { t, Math.nextUp(t), Math.nextDown(t), Math.nextUp(Math.nextUp(t)), Math.nextDown(Math.nextDown(t)) }) if (c + 273.15 == T) return c;
    return t;
  }
  @TLAPlusOperator(identifier = "LitN", module = "Real", warn = false)
  public static Value litN(final Value q) { return IntValue.gen(LITS.get(((StringValue) q).val.toString()).length); }
  @TLAPlusOperator(identifier = "Lit", module = "Real", warn = false)
  public static Value lit(final Value q, final Value k) { double[] a = LITS.get(((StringValue) q).val.toString()); return mk(a[Math.floorMod(I(k), a.length)], 0); }
  @TLAPlusOperator(identifier = "Str", module = "Real", warn = false)
  public static Value str(final Value x) { return x instanceof StringValue ? x : new StringValue(Double.toString(of(x).v)); }

  // ---- polynomial folds -------------------------------------------------------------------------
  static final class Tab { double[] n; double[] I, J; int[] iI, iJ; boolean ints; int minI, maxI, minJ, maxJ; }
  static final class Key { final Value t; Key(Value t) { this.t = t; }
    public int hashCode() { return System.identityHashCode(t); }
    public boolean equals(Object o) { return ((Key) o).t == t; } }
  static final ConcurrentHashMap<Key, Tab> TABS = new ConcurrentHashMap<>();
  static volatile int built = 0;
  static Tab tab(Value t) {
    Tab r = TABS.get(new Key(t));
    if (r != null) return r;
    if (++built == 2000) System.err.println("vf: WARNING tables are not being cached");
    TupleValue tv = (TupleValue) t.toTuple();
    int N = tv.elems.length; r = new Tab(); r.n = new double[N]; r.I = new double[N]; r.J = new double[N]; r.iI = new int[N]; r.iJ = new int[N];
    r.ints = true; r.minI = r.minJ = 0; r.maxI = r.maxJ = 0;
    for (int k = 0; k < N; k++) {
      TupleValue row = (TupleValue) tv.elems[k].toTuple();
      r.I[k] = of(row.elems[0]).v; r.J[k] = of(row.elems[1]).v; r.n[k] = of(row.elems[2]).v;
      if (r.I[k] != Math.rint(r.I[k]) || r.J[k] != Math.rint(r.J[k])) r.ints = false;
      r.iI[k] = (int) r.I[k]; r.iJ[k] = (int) r.J[k];
      r.minI = Math.min(r.minI, r.iI[k]); r.maxI = Math.max(r.maxI, r.iI[k]); r.minJ = Math.min(r.minJ, r.iJ[k]); r.maxJ = Math.max(r.maxJ, r.iJ[k]);
    }
    if (TABS.size() < 5000) TABS.put(new Key(t), r);
    return r;
  }
  static double p(double x, double e) { return e == 0 ? 1 : Math.pow(x, e); }
  static double ipow(double x, int n) { if (n == 0) return 1; boolean neg = n < 0; int m = Math.abs(n); double r = 1, b = x;
    if (neg) b = 1 / x; while (m > 0) { if ((m & 1) == 1) r *= b; b *= b; m >>= 1; } return r; }

  /** derivative order (di,dj) of sum n x^I y^J, with error bound */
  static double[] poly(Tab t, RV X, RV Y, int di, int dj) {
    double x = X.v, y = Y.v, s = 0, err = 0, ax = Math.abs(x), ay = Math.abs(y);
    for (int k = 0; k < t.n.length; k++) {
      double a = t.I[k], b = t.J[k], c = t.n[k];
      if (di >= 1) { c *= a; a -= 1; if (di >= 2) { c *= a; a -= 1; } }
      if (dj >= 1) { c *= b; b -= 1; if (dj >= 2) { c *= b; b -= 1; } }
      if (c == 0) continue;
      double px, py;
      if (t.ints) { px = ipow(x, (int) a); py = ipow(y, (int) b); } else { px = p(x, a); py = p(y, b); }
      double term = c * px * py; s += term;
      double at = Math.abs(term);
      err += at * U * (6 + Math.abs(a) + Math.abs(b));
      if (X.e > 0 && a != 0) err += ax > X.e ? at * Math.abs(a) * X.e / ax : Math.abs(c * py) * Math.pow(ax + X.e, a);
      if (Y.e > 0 && b != 0) err += ay > Y.e ? at * Math.abs(b) * Y.e / ay : Math.abs(c * px) * Math.pow(ay + Y.e, b);
    }
    return new double[] { s, err };
  }
  @TLAPlusOperator(identifier = "Poly", module = "Real", warn = false)
  public static Value polyV(final Value t, final Value x, final Value y) { double[] r = poly(tab(t), of(x), of(y), 0, 0); return mk(r[0], r[1]); }
  @TLAPlusOperator(identifier = "PolyD", module = "Real", warn = false)
  public static Value polyD(final Value t, final Value x, final Value y) {
    Tab tb = tab(t); RV X = of(x), Y = of(y); Value[] out = new Value[6];
    int[][] o = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { 2, 0 }, { 1, 1 }, { 0, 2 } };
    for (int i = 0; i < 6; i++) { double[] r = poly(tb, X, Y, o[i][0], o[i][1]); out[i] = mk(r[0], r[1]); }
    return new TupleValue(out);
  }
}
