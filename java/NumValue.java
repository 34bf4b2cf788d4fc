import java.math.*;
import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.tool.EvalException;
import util.*;

/** A TLC value: a real or complex number held to NumMath.MC decimal digits (or NaN / +-Infinity). */
public final class NumValue extends Value {
  public static final int FIN = 0, NAN = 1, PINF = 2, NINF = 3;
  public final BigDecimal re, im;   // im == null for real numbers
  public final int sp;
  public NumValue(BigDecimal re, BigDecimal im, int sp) {
    this.re = flush(re); this.sp = sp;
    this.im = (im == null || im.signum() == 0 || flush(im).signum() == 0) ? null : im;
  }
  /** magnitudes below 10^-2000 count as zero */
  static BigDecimal flush(BigDecimal a) {
    return a.signum() == 0 || (long) a.precision() - a.scale() < -2000 ? BigDecimal.ZERO : a;
  }
  public NumValue(BigDecimal re) { this(re, null, FIN); }
  public static final NumValue NaN = new NumValue(BigDecimal.ZERO, null, NAN);
  public static final NumValue PInf = new NumValue(BigDecimal.ZERO, null, PINF);
  public static final NumValue NInf = new NumValue(BigDecimal.ZERO, null, NINF);
  public static final NumValue ZERO = new NumValue(BigDecimal.ZERO);
  public static final NumValue ONE = new NumValue(BigDecimal.ONE);
  public boolean fin() { return sp == FIN; }
  public BigDecimal imz() { return im == null ? BigDecimal.ZERO : im; }
  private String key() {
    if (sp != FIN) return "sp" + sp;
    String s = re.signum() == 0 ? "0" : re.stripTrailingZeros().toString();
    return im == null ? s : s + "," + im.stripTrailingZeros().toString();
  }
  @Override public byte getKind() { return MODELVALUE; }
  @Override public int compareTo(Object o) {
    if (!(o instanceof NumValue)) throw new EvalException(2132, "Attempted to compare number " + this + " with " + o);
    NumValue b = (NumValue) o;
    if (sp != b.sp) return sp - b.sp;
    if (sp != FIN) return 0;
    int c = re.compareTo(b.re);
    return c != 0 ? c : imz().compareTo(b.imz());
  }
  @Override public boolean equals(Object o) {
    if (!(o instanceof NumValue)) return false;
    return compareTo(o) == 0;
  }
  @Override public boolean member(Value v) { throw new EvalException(2132, "number is not a set"); }
  @Override public Value takeExcept(ValueExcept e) {
    if (e.idx < e.path.length) throw new EvalException(2132, "EXCEPT on number");
    return (Value) e.value;
  }
  @Override public Value takeExcept(ValueExcept[] e) {
    Value r = this;
    for (ValueExcept x : e) r = takeExcept(x);
    return r;
  }
  @Override public Value normalize() { return this; }
  @Override public boolean isNormalized() { return true; }
  @Override public void deepNormalize() {}
  @Override public boolean isFinite() { return true; }
  @Override public int size() { return 1; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public boolean mutates() { return false; }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public long fingerPrint(long fp) {
    String s = key();
    fp = tlc2.util.FP64.Extend(fp, 77);
    return tlc2.util.FP64.Extend(fp, s);
  }
  public String json() {
    if (sp == NAN) return "{\"$n\":\"nan\"}";
    if (sp == PINF) return "{\"$n\":\"inf\"}";
    if (sp == NINF) return "{\"$n\":\"-inf\"}";
    String a = Double.toString(re.doubleValue());
    if (im == null) return "{\"$n\":\"" + a + "\"}";
    return "{\"$n\":\"" + a + "\",\"$i\":\"" + im.doubleValue() + "\"}";
  }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
    if (sp == NAN) return sb.append("NaN");
    if (sp == PINF) return sb.append("Inf");
    if (sp == NINF) return sb.append("-Inf");
    sb.append(re.doubleValue());
    if (im != null) sb.append("+").append(im.doubleValue()).append("i");
    return sb;
  }
}
