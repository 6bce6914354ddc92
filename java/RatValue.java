import tlc2.value.*; import tlc2.value.impl.*; import tlc2.util.FP64;
import java.math.BigInteger;
/** An exact rational number (or +-infinity / NaN, which only the order and finiteness tests accept) as a TLC value. */
public final class RatValue extends Value {
  public final BigInteger n, d;            // lowest terms, d > 0
  static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;
  RatValue(BigInteger n, BigInteger d, boolean normal) { this.n = n; this.d = d; }
  public static RatValue of(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(ONE)) {
      int t = Math.min(n.signum() == 0 ? Integer.MAX_VALUE : n.getLowestSetBit(), d.getLowestSetBit());
      if (n.signum() == 0) { d = ONE; }
      else {
        if (t > 0) { n = n.shiftRight(t); d = d.shiftRight(t); }
        if (d.bitLength() - 1 != d.getLowestSetBit()) {   // not a power of two
          BigInteger g = n.gcd(d); if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
      }
    }
    return new RatValue(n, d, true);
  }
  public static RatValue of(long v) { return new RatValue(BigInteger.valueOf(v), ONE, true); }
  public byte getKind() { return USERVALUE; }
  public int compareTo(Object o) {
    RatValue r = (RatValue) o;
    if (d.equals(r.d)) return n.compareTo(r.n);
    return n.multiply(r.d).compareTo(r.n.multiply(d));
  }
  public boolean equals(Object o) { return o instanceof RatValue && ((RatValue) o).n.equals(n) && ((RatValue) o).d.equals(d); }
  public boolean member(Value v) { throw new RuntimeException("member of a rational"); }
  public boolean isFinite() { throw new RuntimeException("isFinite of a rational"); }
  public Value takeExcept(ValueExcept e) { throw new RuntimeException("EXCEPT on a rational"); }
  public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT on a rational"); }
  public int size() { throw new RuntimeException("size of a rational"); }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public long fingerPrint(long fp) { return FP64.Extend(fp, "rat:" + n + "/" + d); }
  public IValue permute(IMVPerm p) { return this; }
  public void write(IValueOutputStream v) throws java.io.IOException { throw new java.io.IOException("rationals are not written to disk"); }
  public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    sb.append("\"").append(n); if (!d.equals(ONE)) sb.append("/").append(d); return sb.append("\"");
  }
}
