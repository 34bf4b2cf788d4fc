import java.math.*;
import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.tool.EvalException;

/** Java overrides of the operators of Num.tla (TLC loads this class because its name is the module's). */
public final class Num {
  static final MathContext MC = NumMath.MC;
  static NumValue n(Value v) {
    if (v instanceof NumValue) return (NumValue) v;
    if (v instanceof IntValue) return new NumValue(BigDecimal.valueOf(((IntValue) v).val));
    throw new EvalException(2132, "Num operator applied to a non-number: " + v);
  }
  static NumValue mk(BigDecimal re, BigDecimal im) { return new NumValue(re.round(MC), im == null ? null : im.round(MC), NumValue.FIN); }
  static NumValue mk(BigDecimal re) { return new NumValue(re.round(MC)); }
  // ---- conversions
  public static Value NInt(final Value a) { return n(a); }
  public static Value NDec(final Value s) {
    String t = ((StringValue) s).val.toString();
    return parse(t);
  }
  static NumValue parse(String t) {
    switch (t) {
      case "NaN": case "nan": return NumValue.NaN;
      case "Infinity": case "inf": return NumValue.PInf;
      case "-Infinity": case "-inf": return NumValue.NInf;
      default: return new NumValue(new BigDecimal(t));
    }
  }
  // ---- arithmetic
  static NumValue add(NumValue a, NumValue b) {
    if (a.fin() && b.fin()) {
      if (a.im == null && b.im == null) return new NumValue(a.re.add(b.re, MC));
      return new NumValue(a.re.add(b.re, MC), a.imz().add(b.imz(), MC), 0);
    }
    if (a.sp == NumValue.NAN || b.sp == NumValue.NAN) return NumValue.NaN;
    if (!a.fin() && !b.fin()) return a.sp == b.sp ? a : NumValue.NaN;
    return a.fin() ? b : a;
  }
  static NumValue neg(NumValue a) {
    if (a.fin()) return new NumValue(a.re.negate(), a.im == null ? null : a.im.negate(), 0);
    return a.sp == NumValue.NAN ? a : a.sp == NumValue.PINF ? NumValue.NInf : NumValue.PInf;
  }
  static NumValue sub(NumValue a, NumValue b) { return add(a, neg(b)); }
  static NumValue mul(NumValue a, NumValue b) {
    if (a.fin() && b.fin()) {
      if (a.im == null && b.im == null) return new NumValue(a.re.multiply(b.re, MC));
      BigDecimal ai = a.imz(), bi = b.imz();
      return new NumValue(a.re.multiply(b.re, MC).subtract(ai.multiply(bi, MC), MC),
                          a.re.multiply(bi, MC).add(ai.multiply(b.re, MC), MC), 0);
    }
    if (a.sp == NumValue.NAN || b.sp == NumValue.NAN) return NumValue.NaN;
    int sa = a.fin() ? a.re.signum() : a.sp == NumValue.PINF ? 1 : -1;
    int sb = b.fin() ? b.re.signum() : b.sp == NumValue.PINF ? 1 : -1;
    int s = sa * sb;
    return s == 0 ? NumValue.NaN : s > 0 ? NumValue.PInf : NumValue.NInf;
  }
  static NumValue div(NumValue a, NumValue b) {
    if (a.fin() && b.fin()) {
      if (b.im == null) {
        if (b.re.signum() == 0) {
          if (a.re.signum() == 0 || a.im != null) return NumValue.NaN;
          return a.re.signum() > 0 ? NumValue.PInf : NumValue.NInf;
        }
        return new NumValue(a.re.divide(b.re, MC), a.im == null ? null : a.im.divide(b.re, MC), 0);
      }
      BigDecimal d = b.re.multiply(b.re, MC).add(b.im.multiply(b.im, MC), MC);
      NumValue c = mul(a, conj(b));
      return new NumValue(c.re.divide(d, MC), c.imz().divide(d, MC), 0);
    }
    if (a.sp == NumValue.NAN || b.sp == NumValue.NAN) return NumValue.NaN;
    if (!a.fin() && !b.fin()) return NumValue.NaN;
    if (a.fin()) return NumValue.ZERO;
    return (b.re.signum() >= 0) == (a.sp == NumValue.PINF) ? NumValue.PInf : NumValue.NInf;
  }
  static NumValue conj(NumValue a) { return a.im == null ? a : new NumValue(a.re, a.im.negate(), 0); }
  static NumValue abs(NumValue a) {
    if (!a.fin()) return a.sp == NumValue.NAN ? a : NumValue.PInf;
    if (a.im == null) return new NumValue(a.re.abs());
    return new NumValue(a.re.multiply(a.re, MC).add(a.im.multiply(a.im, MC), MC).sqrt(MC));
  }
  static BigDecimal real(NumValue a) { return a.re; }
  public static Value NAdd(final Value a, final Value b) { return add(n(a), n(b)); }
  public static Value NSub(final Value a, final Value b) { return sub(n(a), n(b)); }
  public static Value NMul(final Value a, final Value b) { return mul(n(a), n(b)); }
  public static Value NDiv(final Value a, final Value b) { return div(n(a), n(b)); }
  public static Value NNeg(final Value a) { return neg(n(a)); }
  public static Value NAbs(final Value a) { return abs(n(a)); }
  public static Value NConj(final Value a) { return conj(n(a)); }
  public static Value NRe(final Value a) { NumValue x = n(a); return x.fin() ? new NumValue(x.re) : x; }
  public static Value NIm(final Value a) { NumValue x = n(a); return x.fin() ? new NumValue(x.imz()) : x; }
  public static Value NCplx(final Value a, final Value b) {
    NumValue x = n(a), y = n(b);
    if (!x.fin() || !y.fin()) return NumValue.NaN;
    return new NumValue(x.re, y.re, 0);
  }
  public static Value NSqrt(final Value a) {
    NumValue x = n(a);
    if (x.sp == NumValue.PINF) return x;
    if (!x.fin() || x.re.signum() < 0 || x.im != null) return NumValue.NaN;
    return new NumValue(x.re.sqrt(MC));
  }
  static NumValue exp(NumValue x) {
    if (x.sp == NumValue.PINF) return x;
    if (x.sp == NumValue.NINF) return NumValue.ZERO;
    if (!x.fin()) return NumValue.NaN;
    if (x.re.compareTo(new BigDecimal(100000)) > 0) return NumValue.PInf;
    if (x.re.compareTo(new BigDecimal(-100000)) < 0) return NumValue.ZERO;
    BigDecimal r = NumMath.exp(x.re);
    if (x.im == null) return new NumValue(r);
    BigDecimal[] sc = NumMath.sincos(x.im);
    return new NumValue(r.multiply(sc[1], MC), r.multiply(sc[0], MC), 0);
  }
  public static Value NExp(final Value a) { return exp(n(a)); }
  public static Value NLog(final Value a) {
    NumValue x = n(a);
    if (x.sp == NumValue.PINF) return x;
    if (!x.fin() || x.im != null || x.re.signum() < 0) return NumValue.NaN;
    if (x.re.signum() == 0) return NumValue.NInf;
    return new NumValue(NumMath.log(x.re));
  }
  static boolean okr(NumValue x) { return x.fin() && x.im == null; }
  public static Value NSin(final Value a) { NumValue x = n(a); return okr(x) ? new NumValue(NumMath.sincos(x.re)[0]) : NumValue.NaN; }
  public static Value NCos(final Value a) { NumValue x = n(a); return okr(x) ? new NumValue(NumMath.sincos(x.re)[1]) : NumValue.NaN; }
  public static Value NAtan2(final Value a, final Value b) {
    NumValue y = n(a), x = n(b);
    return okr(x) && okr(y) ? new NumValue(NumMath.atan2(y.re, x.re)) : NumValue.NaN;
  }
  // ---- comparison (false on NaN; complex operands compare by real part)
  static int cmp(NumValue a, NumValue b) {         // 2 = unordered
    if (a.sp == NumValue.NAN || b.sp == NumValue.NAN) return 2;
    if (a.fin() && b.fin()) return a.re.compareTo(b.re);
    int x = a.fin() ? 0 : a.sp == NumValue.PINF ? 1 : -1, y = b.fin() ? 0 : b.sp == NumValue.PINF ? 1 : -1;
    return Integer.compare(x, y);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NLt(final Value a, final Value b) { return bool(cmp(n(a), n(b)) == -1); }
  public static Value NLe(final Value a, final Value b) { int c = cmp(n(a), n(b)); return bool(c == -1 || c == 0); }
  public static Value NIsFin(final Value a) { return bool(n(a).fin()); }
  public static Value NIsNaN(final Value a) { return bool(n(a).sp == NumValue.NAN); }
  public static Value NIsReal(final Value a) { return bool(n(a).im == null); }
  public static Value NIsNum(final Value a) { return bool(a instanceof NumValue); }
  public static Value NPi() { return new NumValue(NumMath.PI.round(MC)); }
  public static Value NNaN() { return NumValue.NaN; }
  public static Value NInf() { return NumValue.PInf; }
}
