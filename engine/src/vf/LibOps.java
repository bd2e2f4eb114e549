package vf;

import static vf.RV.*;
import java.nio.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import tlc2.value.impl.Value;

/** Java evaluation of module Lib: the calls into the real library, and the bookkeeping of findings. */
public class LibOps {
  static final long PANIC = 0x7ff8deadbeef0001L;
  static final int NOREG = Integer.MIN_VALUE;
  static final String[] PAIRS = { "pt", "ph", "ps", "hs", "pv", "tv", "th", "ts", "px", "tx", "hx", "sx" };
  static final Map<String, Integer> PAIR = new HashMap<>();
  static final Path OUT = Paths.get(System.getProperty("vf.out", "."));
  static final String PROP = System.getProperty("vf.prop", "C00");
  static final long HANG_MS = Long.getLong("vf.hang", 20000);
  static native void init();
  static native double call0(int pair, double a, double b, int oid, int reg);

  // ---- the call under way on each thread, watched for calls that never return
  static final class Cur { volatile long start; volatile int pair, oid, reg; volatile double a, b; final AtomicLong n = new AtomicLong(); }
  static final Queue<Cur> ALL = new ConcurrentLinkedQueue<>();
  static final ThreadLocal<Cur> CUR = ThreadLocal.withInitial(() -> { Cur c = new Cur(); ALL.add(c); return c; });
  static final Map<String, AtomicLong> TICK = new ConcurrentHashMap<>();
  static final Map<String, String> SAMPLE = new ConcurrentHashMap<>();
  static final Set<String> KNOWN = ConcurrentHashMap.newKeySet();
  static final Map<String, String> KNOWN_HIT = new ConcurrentHashMap<>();
  static final Map<String, AtomicLong> KNOWN_CNT = new ConcurrentHashMap<>();
  static final AtomicLong VIOLS = new AtomicLong();
  static final Queue<String> VIOL = new ConcurrentLinkedQueue<>();
  static final Map<String, AtomicLong> VCNT = new ConcurrentHashMap<>();
  static final int VMAX = Integer.getInteger("vf.vmax", 10);

  static {
    for (int i = 0; i < PAIRS.length; i++) PAIR.put(PAIRS[i], i);
    if (System.getProperty("vf.lib") != null) {
      System.load(System.getProperty("vf.lib"));
      init();
      Thread w = new Thread(LibOps::watch, "vf-watch"); w.setDaemon(true); w.start();
    }
    String kf = System.getProperty("vf.known");
    if (kf != null) try {
      for (String l : Files.readAllLines(Paths.get(kf))) {
        l = l.trim();
        if (l.startsWith("#") || l.isEmpty() || l.startsWith("fixed:")) continue;
        String[] f = l.split("\\s+", 3);   // finding: property=<id> site=<site> ...
        if (f.length < 3 || !f[0].equals("finding:")) continue;
        String id = f[1].replace("property=", ""), site = f[2].split("\\s+")[0].replace("site=", "");
        KNOWN.add(id + " " + site);
      }
    } catch (java.io.IOException e) { throw new RuntimeException(e); }
    Runtime.getRuntime().addShutdownHook(new Thread(LibOps::flush));
  }
  static void watch() {
    while (true) {
      try { Thread.sleep(500); } catch (InterruptedException e) { return; }
      long now = System.nanoTime();
      for (Cur c : ALL) {
        long s = c.start;
        if (s != 0 && now - s > HANG_MS * 1_000_000L) {
          viol("hang", fmt(c.pair, c.a, c.b, c.oid, c.reg) + " has not returned after " + HANG_MS + " ms");
          flush(); System.err.println("vf: HANG"); System.err.flush(); Runtime.getRuntime().halt(77);
        }
      }
    }
  }
  static String fmt(int pair, double a, double b, int oid, int reg) {
    return PAIRS[pair] + "(" + a + ", " + b + ", " + (reg == NOREG ? "" + oid : "(" + oid + "," + reg + ")") + ")";
  }
  static void viol(String site, String what) {
    VIOLS.incrementAndGet();
    if (VCNT.computeIfAbsent(site, k -> new AtomicLong()).incrementAndGet() <= VMAX && VCNT.size() < 400) VIOL.add(site + "\t" + what);
  }
  static boolean flushed = false;
  static synchronized void flush() {
    if (System.getProperty("vf.out") == null) return;
    try {
      Files.createDirectories(OUT);
      long n = 0; for (Cur c : ALL) n += c.n.get();
      StringBuilder sb = new StringBuilder();
      sb.append("calls\t").append(n).append('\n');
      for (Map.Entry<String, AtomicLong> e : new TreeMap<>(TICK).entrySet()) sb.append("tick\t").append(e.getKey()).append('\t').append(e.getValue()).append('\n');
      for (Map.Entry<String, String> e : new TreeMap<>(SAMPLE).entrySet()) sb.append("sample\t").append(e.getKey()).append('\t').append(e.getValue()).append('\n');
      for (Map.Entry<String, String> e : new TreeMap<>(KNOWN_HIT).entrySet()) sb.append("known\t").append(e.getKey()).append('\t').append(KNOWN_CNT.get(e.getKey())).append('\t').append(e.getValue()).append('\n');
      for (Map.Entry<String, AtomicLong> e : new TreeMap<>(VCNT).entrySet()) sb.append("vcount\t").append(e.getKey()).append('\t').append(e.getValue()).append('\n');
      for (String s : VIOL) sb.append("viol\t").append(s).append('\n');
      sb.append("viols\t").append(VIOLS.get()).append('\n');
      Files.write(OUT.resolve("report.tsv"), sb.toString().getBytes("UTF-8"));
    } catch (java.io.IOException e) { e.printStackTrace(); }
  }
  static double val(Value x) { return of(x).v; }
  static int regOf(Value r) { return r instanceof IntValue ? ((IntValue) r).val : NOREG; }
  static Value wrap(double r) { return mk(r, 0); }
  static double doCall(int pair, double a, double b, int oid, int reg) {
    Cur c = CUR.get(); c.pair = pair; c.a = a; c.b = b; c.oid = oid; c.reg = reg; c.start = System.nanoTime();
    double r = call0(pair, a, b, oid, reg);
    c.start = 0; c.n.lazySet(c.n.get() + 1);
    return r;
  }
  static int pairOf(Value p) {
    Integer i = PAIR.get(((StringValue) p).val.toString());
    if (i == null) throw new RuntimeException("no such pair " + p);
    return i;
  }
  /** Call(pair, a, b, oid): the public call without a region */
  @TLAPlusOperator(identifier = "Call", module = "Lib", warn = false)
  public static Value call(final Value p, final Value a, final Value b, final Value o) {
    return wrap(doCall(pairOf(p), val(a), val(b), ((IntValue) o).val, NOREG));
  }
  /** CallR(pair, a, b, oid, region): the public call that names a region */
  @TLAPlusOperator(identifier = "CallR", module = "Lib", warn = false)
  public static Value callR(final Value p, final Value a, final Value b, final Value o, final Value r) {
    return wrap(doCall(pairOf(p), val(a), val(b), ((IntValue) o).val, ((IntValue) r).val));
  }
  /** identical answers: same number (bit for bit), or both not-a-number / panics alike */
  @TLAPlusOperator(identifier = "Bits", module = "Lib", warn = false)
  public static Value bits(final Value a, final Value b) {
    return RealOps.B(Double.doubleToRawLongBits(val(a)) == Double.doubleToRawLongBits(val(b)) || (outcome0(val(a)) == "nan" && outcome0(val(b)) == "nan"));
  }
  @TLAPlusOperator(identifier = "Outcome", module = "Lib", warn = false)
  public static Value outcome(final Value a) {
    return new StringValue(outcome0(val(a)));
  }
  static String outcome0(double v) {
    long b = Double.doubleToRawLongBits(v) - PANIC;
    return b == 0 ? "panic" : b == 1 ? "unstable" : b == 2 ? "died" : b == 3 ? "hung" : b == 4 ? "missing" : Double.isNaN(v) ? "nan" : Double.isInfinite(v) ? "inf" : "num";
  }
  // ---- scripts of requests, each run in a process that has made no call (harness/src/solo.rs)
  static final class Server {
    Process p; java.io.DataOutputStream in; java.io.DataInputStream out;
    Server() {
      try {
        p = new ProcessBuilder(System.getProperty("vf.solo")).redirectError(ProcessBuilder.Redirect.DISCARD).start();
        in = new java.io.DataOutputStream(new java.io.BufferedOutputStream(p.getOutputStream(), 1 << 16)); out = new java.io.DataInputStream(new java.io.BufferedInputStream(p.getInputStream()));
      } catch (java.io.IOException e) { throw new RuntimeException(e); }
    }
    double[] run(int threads, int mode, int rep, double[] recs) {
      int n = recs.length / 6;
      ByteBuffer b = ByteBuffer.allocate(32 + recs.length * 8).order(ByteOrder.nativeOrder());
      b.putDouble(n).putDouble(threads).putDouble(mode).putDouble(rep);
      for (double d : recs) b.putDouble(d);
      try {
        in.write(b.array()); in.flush();
        byte[] r = new byte[n * 8]; out.readFully(r);
        double[] res = new double[n]; ByteBuffer q = ByteBuffer.wrap(r).order(ByteOrder.nativeOrder());
        for (int i = 0; i < n; i++) res[i] = q.getDouble();
        return res;
      } catch (java.io.IOException e) { throw new RuntimeException(e); }
    }
  }
  static final ThreadLocal<Server> SERVER = ThreadLocal.withInitial(Server::new);
  static void record(Value v, int thread, double[] to, int at) {
    TupleValue r = (TupleValue) v.toTuple();
    to[at] = thread; to[at + 1] = pairOf(r.elems[0]); to[at + 2] = val(r.elems[1]); to[at + 3] = val(r.elems[2]); to[at + 4] = ((IntValue) r.elems[3]).val;
    int g = r.elems.length > 4 ? ((IntValue) r.elems[4]).val : NOREG; to[at + 5] = g == NOREG ? -2e9 : g;
  }
  /** Run(mode, threads, rep, who, script): who[k] is the thread that makes request script[k] = <<pair, a, b, oid>> or
   *  <<pair, a, b, oid, region>>.  mode 0: one after the other in that order; mode 1: every thread its own, at the same time, rep times.
   *  All in a process of its own; the answers in script order. */
  @TLAPlusOperator(identifier = "Run", module = "Lib", warn = false)
  public static Value run(final Value mode, final Value threads, final Value rep, final Value who, final Value script) {
    TupleValue t = (TupleValue) script.toTuple(), w = (TupleValue) who.toTuple(); int n = t.elems.length;
    double[] recs = new double[n * 6];
    for (int i = 0; i < n; i++) record(t.elems[i], ((IntValue) w.elems[i]).val, recs, i * 6);
    Cur c = CUR.get(); c.n.lazySet(c.n.get() + (long) n * ((IntValue) rep).val);
    double[] a = SERVER.get().run(((IntValue) threads).val, ((IntValue) mode).val, ((IntValue) rep).val, recs);
    Value[] res = new Value[n];
    for (int i = 0; i < n; i++) res[i] = wrap(a[i]);
    return new TupleValue(res);
  }
  /** Solo(r): the request r alone in a process of its own (cached) */
  static final ConcurrentHashMap<String, Double> SOLO = new ConcurrentHashMap<>();
  @TLAPlusOperator(identifier = "Solo", module = "Lib", warn = false)
  public static Value solo(final Value r) {
    double[] rec = new double[6]; record(r, 0, rec, 0);
    return wrap(SOLO.computeIfAbsent(Arrays.toString(rec), k -> SERVER.get().run(1, 0, 1, rec)[0]));
  }
  // ---- the C libraries (bind/src/main.rs) and the Python package (tools/pyserve.py), each in a process of its own
  static final double DIED = Double.longBitsToDouble(PANIC + 2);
  static final String BIND = System.getProperty("vf.bind", "");
  static final class Bound {
    final String lib; Process p; java.io.DataOutputStream in; java.io.DataInputStream out; java.io.BufferedReader text;
    Bound(String l) { lib = l; }
    void open() throws java.io.IOException {
      if (p != null && p.isAlive()) return;
      String b = lib.endsWith("32") ? "/i686-unknown-linux-gnu/release/" : "/release/";
      ProcessBuilder pb = lib.equals("python") ? new ProcessBuilder("/usr/bin/python3", BIND + "/../../tools/pyserve.py", BIND + "/pkg")
        : new ProcessBuilder(BIND + "/t" + b + "vfbind", BIND + "/" + lib.substring(0, lib.length() - 2) + b + "libseuif97.so");
      p = pb.redirectError(ProcessBuilder.Redirect.INHERIT).start();
      in = new java.io.DataOutputStream(new java.io.BufferedOutputStream(p.getOutputStream(), 1 << 16)); out = new java.io.DataInputStream(new java.io.BufferedInputStream(p.getInputStream(), 1 << 16));
      text = new java.io.BufferedReader(new java.io.InputStreamReader(out));
    }
  }
  static final ThreadLocal<Map<String, Bound>> BOUND = ThreadLocal.withInitial(HashMap::new);
  static Bound bound(String lib) { return BOUND.get().computeIfAbsent(lib, Bound::new); }
  static void tally(int n) { Cur c = CUR.get(); c.n.lazySet(c.n.get() + n); }
  /** CBind(lib, pair, a, b, ids): for each of ids <<what the function the library exports answers, what the Rust function
   *  answers in a program for the same processor, how many bytes of its arguments the former removed from the stack>> */
  @TLAPlusOperator(identifier = "CBind", module = "Lib", warn = false)
  public static Value cbind(final Value lib, final Value pair, final Value a, final Value b, final Value ids) {
    TupleValue t = (TupleValue) ids.toTuple(); int n = t.elems.length; tally(n);
    Bound s = bound(((StringValue) lib).val.toString());
    ByteBuffer q = ByteBuffer.allocate(32 + 8 * n).order(ByteOrder.nativeOrder());
    q.putLong(pairOf(pair)).putDouble(val(a)).putDouble(val(b)).putLong(n);
    for (Value v : t.elems) q.putLong(((IntValue) v).val);
    byte[] r = new byte[24 * n];
    Value[] res = new Value[n];
    try { s.open(); s.in.write(q.array()); s.in.flush(); s.out.readFully(r); }
    catch (java.io.IOException e) { if (s.p != null) s.p.destroyForcibly(); s.p = null; for (int i = 0; i < n; i++) res[i] = new TupleValue(new Value[] { wrap(DIED), wrap(0), IntValue.gen(-1) }); return new TupleValue(res); }
    ByteBuffer w = ByteBuffer.wrap(r).order(ByteOrder.nativeOrder());
    for (int i = 0; i < n; i++) res[i] = new TupleValue(new Value[] { wrap(w.getDouble()), wrap(w.getDouble()), IntValue.gen((int) w.getLong()) });
    return new TupleValue(res);
  }
  /** PyCall(name, a, b, ids): what that function of the Python package answers, for each of ids; without ids, of (a, b) alone */
  @TLAPlusOperator(identifier = "PyCall", module = "Lib", warn = false)
  public static Value pycall(final Value name, final Value a, final Value b, final Value ids) {
    TupleValue t = (TupleValue) ids.toTuple(); int n = Math.max(1, t.elems.length); tally(n);
    Bound s = bound("python");
    StringBuilder q = new StringBuilder(((StringValue) name).val.toString()).append(' ').append(Long.toUnsignedString(Double.doubleToRawLongBits(val(a)))).append(' ').append(Long.toUnsignedString(Double.doubleToRawLongBits(val(b))));
    for (Value v : t.elems) q.append(' ').append(((IntValue) v).val);
    Value[] res = new Value[n];
    String l = null;
    try { s.open(); s.in.write(q.append('\n').toString().getBytes("UTF-8")); s.in.flush(); l = s.text.readLine(); } catch (java.io.IOException e) { }
    if (l == null) { if (s.p != null) s.p.destroyForcibly(); s.p = null; Arrays.fill(res, wrap(DIED)); return new TupleValue(res); }
    String[] w = l.split(" ");
    for (int i = 0; i < n; i++) res[i] = wrap(Double.longBitsToDouble(Long.parseUnsignedLong(w[i])));
    return new TupleValue(res);
  }
  // ---- findings ---------------------------------------------------------------------------------
  /** Claim(site, what, ok): TRUE if ok, or if the violation at this site is a listed known finding. */
  @TLAPlusOperator(identifier = "Claim", module = "Lib", warn = false)
  public static Value claim(final Value site, final Value ok, final Value what) {
    String s = site(site);
    TICK.computeIfAbsent(s, k -> new AtomicLong()).incrementAndGet();
    boolean good = ((BoolValue) ok).val;
    if (good) { if (!SAMPLE.containsKey(s) && SAMPLE.size() < 60) SAMPLE.putIfAbsent(s, show(what)); return BoolValue.ValTrue; }
    viol(s, show(what));
    return KEEPGOING ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  static final boolean KEEPGOING = Boolean.getBoolean("vf.continue");
  /** Excused(site, what): a deviation from the property that the specification names; TRUE only while the
   *  committed known-findings file lists it. */
  @TLAPlusOperator(identifier = "Excused", module = "Lib", warn = false)
  public static Value excused(final Value site, final Value what) {
    String s = site(site);
    if (KNOWN.contains(PROP + " " + s)) {
      KNOWN_HIT.putIfAbsent(s, show(what)); KNOWN_CNT.computeIfAbsent(s, k -> new AtomicLong()).incrementAndGet();
      return BoolValue.ValTrue;
    }
    return BoolValue.ValFalse;
  }
  /** a site is a string, or a tuple of strings and integers joined by "/" */
  static String site(Value w) {
    if (w instanceof StringValue) return ((StringValue) w).val.toString();
    if (w instanceof TupleValue) { StringBuilder sb = new StringBuilder(); for (Value v : ((TupleValue) w).elems) { if (sb.length() > 0) sb.append('/'); sb.append(site(v)); } return sb.toString(); }
    if (w instanceof UserValue) { double d = of(w).v; return d == Math.rint(d) ? Long.toString((long) d) : Double.toString(d); }
    return w.toString();
  }
  static String show(Value w) {
    if (w instanceof TupleValue) { StringBuilder sb = new StringBuilder("<"); for (Value v : ((TupleValue) w).elems) { if (sb.length() > 1) sb.append(", "); sb.append(show(v)); } return sb.append(">").toString(); }
    if (w instanceof StringValue) return ((StringValue) w).val.toString();
    if (w instanceof UserValue) { RV r = of(w); return r.e == 0 ? Double.toString(r.v) : r.v + "+-" + String.format("%.1e", r.e); }
    return w.toString();
  }
  /** Seen(key): counts an occurrence (coverage), always TRUE */
  @TLAPlusOperator(identifier = "Seen", module = "Lib", warn = false)
  public static Value seen(final Value key) {
    TICK.computeIfAbsent(site(key), k -> new AtomicLong()).incrementAndGet();
    return BoolValue.ValTrue;
  }
}
