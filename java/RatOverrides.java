import tlc2.overrides.*; import tlc2.value.impl.*; import tlc2.value.*; import util.UniqueString;
import java.math.*; import java.util.*;
/** Java evaluation of the operators that spec/Rat.tla defines. Every operator has its definition there. */
public class RatOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[]{RatOverrides.class}; }

  static final HashMap<String, RatValue> cache = new HashMap<>();
  static RatValue r(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
    if (v instanceof StringValue) return f64(((StringValue) v).val.toString());
    if (v instanceof LazyValue) throw new RuntimeException("lazy");
    throw new RuntimeException("not a rational: " + v);
  }
  static synchronized RatValue f64(String s) {
    RatValue c = cache.get(s);
    if (c == null) {
      double x = parse(s);
      if (Double.isNaN(x) || Double.isInfinite(x)) throw new RuntimeException("not finite: " + s);
      BigDecimal b = new BigDecimal(x);
      c = b.scale() <= 0 ? RatValue.of(b.toBigIntegerExact(), BigInteger.ONE)
                         : RatValue.of(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
      cache.put(s, c);
    }
    return c;
  }
  static double parse(String s) {
    switch (s) { case "inf": return Double.POSITIVE_INFINITY; case "-inf": return Double.NEGATIVE_INFINITY;
                 case "NaN": return Double.NaN; default: return Double.parseDouble(s); }
  }
  static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static TupleValue tup(Value[] a) { return new TupleValue(a); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static RatValue add(RatValue a, RatValue b) {
    if (a.d.equals(b.d)) return RatValue.of(a.n.add(b.n), a.d);
    return RatValue.of(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static RatValue sub(RatValue a, RatValue b) {
    if (a.d.equals(b.d)) return RatValue.of(a.n.subtract(b.n), a.d);
    return RatValue.of(a.n.multiply(b.d).subtract(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static RatValue mul(RatValue a, RatValue b) { return RatValue.of(a.n.multiply(b.n), a.d.multiply(b.d)); }
  static RatValue div(RatValue a, RatValue b) { return RatValue.of(a.n.multiply(b.d), a.d.multiply(b.n)); }

  @TLAPlusOperator(identifier="F64", module="Rat", warn=false)
  public static Value f64(final Value s) { return f64(((StringValue) s).val.toString()); }
  @TLAPlusOperator(identifier="IsFin", module="Rat", warn=false)
  public static Value isFin(final Value s) { double x = parse(((StringValue) s).val.toString()); return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
  @TLAPlusOperator(identifier="ROf", module="Rat", warn=false)
  public static Value rof(final Value a) { return r(a); }
  @TLAPlusOperator(identifier="RAdd", module="Rat", warn=false)
  public static Value radd(final Value a, final Value b) { return add(r(a), r(b)); }
  @TLAPlusOperator(identifier="RSub", module="Rat", warn=false)
  public static Value rsub(final Value a, final Value b) { return sub(r(a), r(b)); }
  @TLAPlusOperator(identifier="RMul", module="Rat", warn=false)
  public static Value rmul(final Value a, final Value b) { return mul(r(a), r(b)); }
  @TLAPlusOperator(identifier="RDiv", module="Rat", warn=false)
  public static Value rdiv(final Value a, final Value b) { return div(r(a), r(b)); }
  @TLAPlusOperator(identifier="RLt", module="Rat", warn=false)
  public static Value rlt(final Value a, final Value b) { return bool(r(a).compareTo(r(b)) < 0); }
  @TLAPlusOperator(identifier="RLe", module="Rat", warn=false)
  public static Value rle(final Value a, final Value b) { return bool(r(a).compareTo(r(b)) <= 0); }
  @TLAPlusOperator(identifier="REq", module="Rat", warn=false)
  public static Value req(final Value a, final Value b) { return bool(r(a).compareTo(r(b)) == 0); }
  @TLAPlusOperator(identifier="RAbs", module="Rat", warn=false)
  public static Value rabs(final Value a) { RatValue x = r(a); return x.n.signum() < 0 ? RatValue.of(x.n.negate(), x.d) : x; }
  @TLAPlusOperator(identifier="RMax", module="Rat", warn=false)
  public static Value rmax(final Value a, final Value b) { RatValue x = r(a), y = r(b); return x.compareTo(y) >= 0 ? x : y; }
  @TLAPlusOperator(identifier="RIsInt", module="Rat", warn=false)
  public static Value risint(final Value a) { return bool(r(a).d.equals(BigInteger.ONE)); }
  @TLAPlusOperator(identifier="RStr", module="Rat", warn=false)
  public static Value rstr(final Value a) { RatValue x = r(a); return new StringValue(x.n + (x.d.equals(BigInteger.ONE) ? "" : "/" + x.d)); }
  @TLAPlusOperator(identifier="RDouble", module="Rat", warn=false)
  public static Value rdouble(final Value a) { RatValue x = r(a); return new StringValue(new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(20)).doubleValue() + ""); }

  /** Nearest dyadic rational with a 160 bit significand. */
  static RatValue approx(RatValue x) {
    if (x.n.signum() == 0) return x;
    if (x.n.bitLength() <= 160 && x.d.bitLength() - 1 == x.d.getLowestSetBit()) return x;
    int sh = 160 - (x.n.bitLength() - x.d.bitLength());
    BigInteger q = sh >= 0 ? x.n.shiftLeft(sh).divide(x.d) : x.n.divide(x.d.shiftLeft(-sh));
    return sh >= 0 ? RatValue.of(q, BigInteger.ONE.shiftLeft(sh)) : RatValue.of(q.shiftLeft(-sh), BigInteger.ONE);
  }
  @TLAPlusOperator(identifier="RApprox", module="Rat", warn=false)
  public static Value rapprox(final Value a) { return approx(r(a)); }

  static final MathContext MC = new MathContext(60);
  static RatValue exp(RatValue x) {
    BigDecimal v = new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(80));
    if (v.signum() == 0) return RatValue.of(1);
    if (v.signum() < 0 && v.compareTo(new BigDecimal(-800)) < 0) return RatValue.of(BigInteger.ONE, BigInteger.ONE.shiftLeft(1154));  // ~ e^-800
    if (v.abs().compareTo(new BigDecimal(20000)) > 0) {
      throw new RuntimeException("RExp: argument too large");
    }
    int m = 0; BigDecimal y = v;
    while (y.abs().compareTo(new BigDecimal("0.01")) > 0) { y = y.divide(new BigDecimal(2), MC); m++; }
    BigDecimal t = BigDecimal.ONE, sum = BigDecimal.ONE;
    for (int i = 1; i < 40; i++) { t = t.multiply(y, MC).divide(new BigDecimal(i), MC); sum = sum.add(t, MC); if (t.signum() == 0) break; }
    for (int i = 0; i < m; i++) sum = sum.multiply(sum, MC);
    RatValue q = sum.scale() <= 0 ? RatValue.of(sum.toBigIntegerExact(), BigInteger.ONE) : RatValue.of(sum.unscaledValue(), BigInteger.TEN.pow(sum.scale()));
    return approx(q);
  }
  @TLAPlusOperator(identifier="RExp", module="Rat", warn=false)
  public static Value rexp(final Value a) { return exp(r(a)); }

  // ---- vectors of rationals
  @TLAPlusOperator(identifier="VOf", module="Rat", warn=false)
  public static Value vof(final Value a) { Value[] x = seq(a), o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = r(x[i]); return tup(o); }
  @TLAPlusOperator(identifier="VZero", module="Rat", warn=false)
  public static Value vzero(final Value k) { Value[] o = new Value[((IntValue) k).val]; Arrays.fill(o, RatValue.of(0)); return tup(o); }
  @TLAPlusOperator(identifier="VAdd", module="Rat", warn=false)
  public static Value vadd(final Value a, final Value b) { Value[] x = seq(a), y = seq(b), o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = add(r(x[i]), r(y[i])); return tup(o); }
  @TLAPlusOperator(identifier="VSub", module="Rat", warn=false)
  public static Value vsub(final Value a, final Value b) { Value[] x = seq(a), y = seq(b), o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = sub(r(x[i]), r(y[i])); return tup(o); }
  @TLAPlusOperator(identifier="VScale", module="Rat", warn=false)
  public static Value vscale(final Value c, final Value a) { RatValue k = r(c); Value[] x = seq(a), o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = mul(k, r(x[i])); return tup(o); }
  @TLAPlusOperator(identifier="VSumSq", module="Rat", warn=false)
  public static Value vsumsq(final Value a) { RatValue s = RatValue.of(0); for (Value v : seq(a)) { RatValue q = r(v); s = add(s, mul(q, q)); } return s; }
  @TLAPlusOperator(identifier="VSum", module="Rat", warn=false)
  public static Value vsum(final Value a) { RatValue s = RatValue.of(0); for (Value v : seq(a)) s = add(s, r(v)); return s; }
  @TLAPlusOperator(identifier="VMax", module="Rat", warn=false)
  public static Value vmax(final Value a) { RatValue s = null; for (Value v : seq(a)) { RatValue q = r(v); if (s == null || q.compareTo(s) > 0) s = q; } return s; }
  @TLAPlusOperator(identifier="VMaxAbs", module="Rat", warn=false)
  public static Value vmaxabs(final Value a) { RatValue s = RatValue.of(0); for (Value v : seq(a)) { RatValue q = r(v); if (q.n.signum() < 0) q = RatValue.of(q.n.negate(), q.d); if (q.compareTo(s) > 0) s = q; } return s; }
  @TLAPlusOperator(identifier="VSumRows", module="Rat", warn=false)
  public static Value vsumrows(final Value yv, final Value rows, final Value k) {
    Value[] y = seq(yv), rr = seq(rows); int K = ((IntValue) k).val; RatValue[] s = new RatValue[K]; Arrays.fill(s, RatValue.of(0));
    for (Value i : rr) { Value[] v = seq(y[((IntValue) i).val - 1]); for (int j = 0; j < K; j++) s[j] = add(s[j], r(v[j])); }
    return tup(s.clone());
  }

  // ---- order of doubles (as texts), ranks, sorting
  @TLAPlusOperator(identifier="OrdLe", module="Rat", warn=false)
  public static Value ordle(final Value a, final Value b) { return bool(parse(((StringValue) a).val.toString()) <= parse(((StringValue) b).val.toString())); }
  @TLAPlusOperator(identifier="DenseRank", module="Rat", warn=false)
  public static Value denserank(final Value col) {
    Value[] x = seq(col); TreeSet<Double> set = new TreeSet<>(); double[] d = new double[x.length];
    for (int i = 0; i < x.length; i++) { d[i] = parse(((StringValue) x[i]).val.toString()) + 0.0; set.add(d[i]); }
    HashMap<Double, Integer> rk = new HashMap<>(); int k = 0; for (Double v : set) rk.put(v, k++);
    Value[] o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = IntValue.gen(rk.get(d[i]));
    return tup(o);
  }
  @TLAPlusOperator(identifier="RankOf", module="Rat", warn=false)
  public static Value rankof(final Value col, final Value t) {
    double v = parse(((StringValue) t).val.toString()); HashSet<Double> s = new HashSet<>();
    for (Value x : seq(col)) { double q = parse(((StringValue) x).val.toString()) + 0.0; if (q < v) s.add(q); }
    return IntValue.gen(s.size());
  }
  @TLAPlusOperator(identifier="SortBy", module="Rat", warn=false)
  public static Value sortby(final Value key, final Value rows) {
    final Value[] k = seq(key); Integer[] idx; Value[] rr = seq(rows); idx = new Integer[rr.length];
    for (int i = 0; i < rr.length; i++) idx[i] = ((IntValue) rr[i]).val;
    Arrays.sort(idx, Comparator.comparingInt(i -> ((IntValue) k[i - 1]).val));
    Value[] o = new Value[idx.length]; for (int i = 0; i < o.length; i++) o[i] = IntValue.gen(idx[i]);
    return tup(o);
  }
  @TLAPlusOperator(identifier="SameBag", module="Rat", warn=false)
  public static Value samebag(final Value s, final Value t) {
    Value[] a = seq(s), b = seq(t); if (a.length != b.length) return BoolValue.ValFalse;
    HashMap<String, Integer> m = new HashMap<>();
    for (Value v : a) m.merge(v.toString(), 1, Integer::sum);
    for (Value v : b) { Integer c = m.get(v.toString()); if (c == null || c == 0) return BoolValue.ValFalse; m.put(v.toString(), c - 1); }
    return BoolValue.ValTrue;
  }
  // ---- texts
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static boolean isNum(String s) {
    if (s.matches("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?")) return true;
    return s.matches("(?i)[+-]?(inf|infinity|nan)");
  }
  static double num(String s) {
    String t = s.toLowerCase();
    if (t.endsWith("nan")) return Double.NaN;
    if (t.contains("inf")) return t.startsWith("-") ? Double.NEGATIVE_INFINITY : Double.POSITIVE_INFINITY;
    return Double.parseDouble(s);
  }
  @TLAPlusOperator(identifier="IsNum", module="Rat", warn=false)
  public static Value isnum(final Value a) { return bool(isNum(str(a))); }
  @TLAPlusOperator(identifier="SameNum", module="Rat", warn=false)
  public static Value samenum(final Value a, final Value b) {
    String x = str(a), y = str(b); if (!isNum(x) || !isNum(y)) return BoolValue.ValFalse;
    double p = num(x), q = num(y); return bool(p == q || (Double.isNaN(p) && Double.isNaN(q)));
  }
  @TLAPlusOperator(identifier="HasText", module="Rat", warn=false)
  public static Value contains(final Value a, final Value b) { return bool(str(a).contains(str(b))); }
  @TLAPlusOperator(identifier="StartsWith", module="Rat", warn=false)
  public static Value startswith(final Value a, final Value b) { return bool(str(a).startsWith(str(b))); }
  @TLAPlusOperator(identifier="Indent", module="Rat", warn=false)
  public static Value indent(final Value a) { String s = str(a); int i = 0; while (i < s.length() && s.charAt(i) == ' ') i++; return IntValue.gen(i); }
  @TLAPlusOperator(identifier="LastNum", module="Rat", warn=false)
  public static Value lastnum(final Value a, final Value b) {
    String s = str(a), m = str(b); int i = s.lastIndexOf(m); String t = i < 0 ? "" : s.substring(i + m.length());
    return new StringValue(t.replaceAll("[\\s\"?.]+$", "").trim());
  }
}
