import tlc2.overrides.*; import tlc2.value.impl.*; import tlc2.value.*;
import java.math.*; import java.util.*;
/** Sweeping evaluation of VarSplit!Cands / BestCand / SumSq / MaxAbs. */
public class VarSplitOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[]{VarSplitOverrides.class}; }
  static int in(Value v) { return ((IntValue) v).val; }
  static RatValue sqn(RatValue[] s, int n) {
    RatValue q = RatValue.of(0); for (RatValue x : s) q = RatOverrides.add(q, RatOverrides.mul(x, x));
    return RatOverrides.div(q, RatValue.of(n));
  }
  interface Sink { void put(int t, RatValue g); }
  static void sweep(Value key, Value yv, Value gv, Value kv, Sink sink) {
    final Value[] ky = RatOverrides.seq(key), y = RatOverrides.seq(yv), g = RatOverrides.seq(gv); int k = in(kv), n = g.length;
    Integer[] ord = new Integer[n]; for (int i = 0; i < n; i++) ord[i] = in(g[i]) - 1;
    Arrays.sort(ord, Comparator.comparingInt(i -> in(ky[i])));
    RatValue[] left = new RatValue[k], right = new RatValue[k]; Arrays.fill(left, RatValue.of(0)); Arrays.fill(right, RatValue.of(0));
    RatValue[][] yy = new RatValue[n][k];
    for (int i = 0; i < n; i++) { Value[] v = RatOverrides.seq(y[ord[i]]); for (int j = 0; j < k; j++) { yy[i][j] = RatOverrides.r(v[j]); right[j] = RatOverrides.add(right[j], yy[i][j]); } }
    for (int i = 0; i < n; i++) {
      if (i > 0 && in(ky[ord[i]]) != in(ky[ord[i - 1]])) sink.put(in(ky[ord[i]]), RatOverrides.add(sqn(left, i), sqn(right, n - i)));
      for (int j = 0; j < k; j++) { left[j] = RatOverrides.add(left[j], yy[i][j]); right[j] = RatOverrides.sub(right[j], yy[i][j]); }
    }
  }
  @TLAPlusOperator(identifier="Cands", module="VarSplit", warn=false)
  public static Value cands(final Value key, final Value y, final Value g, final Value k) {
    ArrayList<Value> o = new ArrayList<>();
    sweep(key, y, g, k, (t, s) -> o.add(new TupleValue(new Value[]{IntValue.gen(t), s})));
    return new TupleValue(o.toArray(new Value[0]));
  }
  @TLAPlusOperator(identifier="BestCand", module="VarSplit", warn=false)
  public static Value bestcand(final Value key, final Value y, final Value g, final Value k) {
    RatValue[] m = {RatValue.of(-1)};
    sweep(key, y, g, k, (t, s) -> { if (s.compareTo(m[0]) > 0) m[0] = s; });
    return m[0];
  }
  static Value fld(Value rec, String name) {
    RecordValue r = (RecordValue) rec.toRcd();
    for (int i = 0; i < r.names.length; i++) if (r.names[i].toString().equals(name)) return r.values[i];
    throw new RuntimeException("no field " + name);
  }
  @TLAPlusOperator(identifier="SumSq", module="VarSplit", warn=false)
  public static Value sumsq(final Value p, final Value g) {
    Value[] y = RatOverrides.seq(fld(p, "y")); RatValue s = RatValue.of(0);
    for (Value i : RatOverrides.seq(g)) for (Value v : RatOverrides.seq(y[in(i) - 1])) { RatValue q = RatOverrides.r(v); s = RatOverrides.add(s, RatOverrides.mul(q, q)); }
    return s;
  }
}
