import java.math.*;

/** Elementary functions on BigDecimal, correct to about MC.getPrecision()-5 digits. */
public final class NumMath {
  public static final MathContext MC = new MathContext(44, RoundingMode.HALF_EVEN);
  static final MathContext WC = new MathContext(60, RoundingMode.HALF_EVEN);
  static final BigDecimal ONE = BigDecimal.ONE, ZERO = BigDecimal.ZERO, TWO = BigDecimal.valueOf(2);
  static final BigDecimal TINY = new BigDecimal("1e-62");
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798");
  static final BigDecimal LN2 = new BigDecimal("0.69314718055994530941723212145817656807550013436025525412068000949339362196969471560586332699641868754");

  static BigDecimal exp(BigDecimal x) {            // range reduction by ln2, then Taylor
    if (x.signum() == 0) return ONE;
    BigDecimal k = x.divide(LN2, WC).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal r = x.subtract(k.multiply(LN2), WC);
    int h = 12;
    r = r.divide(new BigDecimal(1 << h), WC);
    BigDecimal s = ONE, t = ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(r, WC).divide(BigDecimal.valueOf(i), WC);
      s = s.add(t, WC);
      if (t.abs().compareTo(TINY) < 0) break;
    }
    for (int i = 0; i < h; i++) s = s.multiply(s, WC);
    int e = k.intValueExact();
    BigDecimal p = TWO.pow(Math.abs(e), WC);
    return (e >= 0 ? s.multiply(p, WC) : s.divide(p, WC)).round(MC);
  }
  static BigDecimal log(BigDecimal x) {            // Newton from a double start
    // x = m * 10^q with m in [1,10)
    int q = x.precision() - x.scale() - 1;
    BigDecimal m = x.scaleByPowerOfTen(-q);
    BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
    for (int i = 0; i < 3; i++) {
      BigDecimal e = expW(y);
      y = y.add(TWO.multiply(m.subtract(e, WC), WC).divide(m.add(e, WC), WC), WC);
    }
    if (q != 0) y = y.add(BigDecimal.valueOf(q).multiply(ln10(), WC), WC);
    return y.round(MC);
  }
  private static BigDecimal LN10 = null;
  static synchronized BigDecimal ln10() {
    if (LN10 == null) {
      BigDecimal m = BigDecimal.TEN, y = new BigDecimal(Math.log(10.0));
      for (int i = 0; i < 3; i++) {
        BigDecimal e = expW(y);
        y = y.add(TWO.multiply(m.subtract(e, WC), WC).divide(m.add(e, WC), WC), WC);
      }
      LN10 = y;
    }
    return LN10;
  }
  private static BigDecimal expW(BigDecimal x) {
    int h = 10;
    BigDecimal r = x.divide(new BigDecimal(1 << h), WC), s = ONE, t = ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(r, WC).divide(BigDecimal.valueOf(i), WC);
      s = s.add(t, WC);
      if (t.abs().compareTo(TINY) < 0) break;
    }
    for (int i = 0; i < h; i++) s = s.multiply(s, WC);
    return s;
  }
  static BigDecimal[] sincos(BigDecimal x) {
    BigDecimal tp = PI.multiply(TWO);
    BigDecimal k = x.divide(tp, WC).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal r = x.subtract(k.multiply(tp), WC);
    int h = 6;
    r = r.divide(new BigDecimal(1 << h), WC);
    BigDecimal r2 = r.multiply(r, WC);
    BigDecimal s = r, t = r;
    for (int i = 1; i < 40; i++) {
      t = t.multiply(r2, WC).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), WC).negate();
      s = s.add(t, WC);
      if (t.abs().compareTo(TINY) < 0) break;
    }
    BigDecimal c = ONE; t = ONE;
    for (int i = 1; i < 40; i++) {
      t = t.multiply(r2, WC).divide(BigDecimal.valueOf((2L * i) * (2L * i - 1)), WC).negate();
      c = c.add(t, WC);
      if (t.abs().compareTo(TINY) < 0) break;
    }
    for (int i = 0; i < h; i++) {
      BigDecimal s2 = TWO.multiply(s, WC).multiply(c, WC);
      c = ONE.subtract(TWO.multiply(s, WC).multiply(s, WC), WC);
      s = s2;
    }
    return new BigDecimal[]{s.round(MC), c.round(MC)};
  }
  static BigDecimal atan(BigDecimal x) {           // argument halving, then Taylor
    int n = 0;
    BigDecimal y = x;
    while (y.abs().compareTo(new BigDecimal("0.05")) > 0 && n < 40) {
      y = y.divide(ONE.add(ONE.add(y.multiply(y, WC), WC).sqrt(WC), WC), WC);
      n++;
    }
    BigDecimal y2 = y.multiply(y, WC), t = y, s = y;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(y2, WC).negate();
      BigDecimal d = t.divide(BigDecimal.valueOf(2L * i + 1), WC);
      s = s.add(d, WC);
      if (d.abs().compareTo(TINY) < 0) break;
    }
    for (int i = 0; i < n; i++) s = s.multiply(TWO, WC);
    return s.round(MC);
  }
  static BigDecimal atan2(BigDecimal y, BigDecimal x) {
    if (x.signum() == 0 && y.signum() == 0) return ZERO;
    if (x.signum() > 0 && x.abs().compareTo(y.abs()) >= 0) return atan(y.divide(x, WC));
    if (y.abs().compareTo(x.abs()) >= 0) {
      BigDecimal a = atan(x.divide(y, WC));
      BigDecimal h = PI.divide(TWO, WC);
      return (y.signum() > 0 ? h.subtract(a, WC) : h.negate().subtract(a, WC)).round(MC);
    }
    BigDecimal a = atan(y.divide(x, WC));
    return (y.signum() >= 0 ? a.add(PI, WC) : a.subtract(PI, WC)).round(MC);
  }
}
