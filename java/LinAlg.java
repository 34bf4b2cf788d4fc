import java.math.*;
import java.util.*;
import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.tool.EvalException;

/** Java overrides of LinAlg.tla: dense linear algebra over NumValue (44 digits).  An array is a nested tuple. */
public final class LinAlg {
  static final MathContext MC = NumMath.MC;
  static EvalException err(String s) { return new EvalException(2132, "LinAlg: " + s); }
  static Value[] el(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw err("not an array: " + v);
    return ((TupleValue) t).elems;
  }
  static boolean leaf(Value v) { return v instanceof NumValue || v instanceof IntValue; }
  static NumValue[] vec(Value v) {
    Value[] e = el(v); NumValue[] r = new NumValue[e.length];
    for (int i = 0; i < r.length; i++) r[i] = Num.n(e[i]);
    return r;
  }
  static NumValue[][] mat(Value v) {
    Value[] e = el(v); NumValue[][] r = new NumValue[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
    return r;
  }
  static Value val(NumValue[] a) { Value[] v = new Value[a.length]; System.arraycopy(a, 0, v, 0, a.length); return new TupleValue(v); }
  static Value val(NumValue[][] a) { Value[] v = new Value[a.length]; for (int i = 0; i < v.length; i++) v[i] = val(a[i]); return new TupleValue(v); }
  interface F1 { NumValue f(NumValue a); }
  interface F2 { NumValue f(NumValue a, NumValue b); }
  static Value map(Value a, F1 f) {
    if (leaf(a)) return f.f(Num.n(a));
    Value[] e = el(a), r = new Value[e.length];
    for (int i = 0; i < r.length; i++) r[i] = map(e[i], f);
    return new TupleValue(r);
  }
  static Value map2(Value a, Value b, F2 f) {
    if (leaf(a) && leaf(b)) return f.f(Num.n(a), Num.n(b));
    if (leaf(a) || leaf(b)) throw err("shape mismatch");
    Value[] e = el(a), g = el(b), r = new Value[e.length];
    if (e.length != g.length) throw err("shape mismatch " + e.length + " vs " + g.length);
    for (int i = 0; i < r.length; i++) r[i] = map2(e[i], g[i], f);
    return new TupleValue(r);
  }
  static void flat(Value a, List<NumValue> out) {
    if (leaf(a)) { out.add(Num.n(a)); return; }
    for (Value x : el(a)) flat(x, out);
  }
  static List<NumValue> flat(Value a) { List<NumValue> l = new ArrayList<>(); flat(a, l); return l; }
  // ---- arrays of any shape
  public static Value ArrAdd(final Value a, final Value b) { return map2(a, b, Num::add); }
  public static Value ArrSub(final Value a, final Value b) { return map2(a, b, Num::sub); }
  public static Value ArrMul(final Value a, final Value b) { return map2(a, b, Num::mul); }
  public static Value ArrDiv(final Value a, final Value b) { return map2(a, b, Num::div); }
  public static Value ArrScale(final Value c, final Value a) { NumValue x = Num.n(c); return map(a, y -> Num.mul(x, y)); }
  public static Value ArrNeg(final Value a) { return map(a, Num::neg); }
  public static Value ArrConj(final Value a) { return map(a, Num::conj); }
  public static Value ArrZero(final Value a) { return map(a, y -> NumValue.ZERO); }
  public static Value ArrRe(final Value a) { return map(a, y -> y.fin() ? new NumValue(y.re) : y); }
  public static Value ArrIm(final Value a) { return map(a, y -> y.fin() ? new NumValue(y.imz()) : y); }
  public static Value ArrAbs(final Value a) { return map(a, Num::abs); }
  public static Value ArrSqrt(final Value a) { return map(a, y -> (NumValue) Num.NSqrt(y)); }
  public static Value ArrExp(final Value a) { return map(a, Num::exp); }
  public static Value ArrLog(final Value a) { return map(a, y -> (NumValue) Num.NLog(y)); }
  public static Value Flat(final Value a) { return val(flat(a).toArray(new NumValue[0])); }
  public static Value SameShape(final Value a, final Value b) { return Num.bool(same(a, b)); }
  static boolean same(Value a, Value b) {
    if (leaf(a) || leaf(b)) return leaf(a) && leaf(b);
    Value[] e = el(a), g = el(b);
    if (e.length != g.length) return false;
    for (int i = 0; i < e.length; i++) if (!same(e[i], g[i])) return false;
    return true;
  }
  public static Value Force(final Value a) { return force(a); }
  static Value force(Value a) {
    if (a instanceof FcnLambdaValue || a instanceof FcnRcdValue || a instanceof TupleValue) {
      Value t = a.toTuple();
      if (t != null) {
        Value[] e = ((TupleValue) t).elems, r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = force(e[i]);
        return new TupleValue(r);
      }
      return (Value) a.toFcnRcd();
    }
    return a;
  }
  /** Real inner product: Re sum conj(a_i) b_i over all entries. */
  public static Value RDot(final Value a, final Value b) {
    NumValue s = NumValue.ZERO;
    List<NumValue> x = flat(a), y = flat(b);
    if (x.size() != y.size()) throw err("RDot shape");
    for (int i = 0; i < x.size(); i++) s = Num.add(s, Num.mul(Num.conj(x.get(i)), y.get(i)));
    return s.fin() ? new NumValue(s.re) : s;
  }
  /** Hermitian inner product: sum conj(a_i) b_i. */
  public static Value HDot(final Value a, final Value b) {
    NumValue s = NumValue.ZERO;
    List<NumValue> x = flat(a), y = flat(b);
    if (x.size() != y.size()) throw err("HDot shape");
    for (int i = 0; i < x.size(); i++) s = Num.add(s, Num.mul(Num.conj(x.get(i)), y.get(i)));
    return s;
  }
  public static Value ArrSum(final Value a) {
    NumValue s = NumValue.ZERO;
    for (NumValue x : flat(a)) s = Num.add(s, x);
    return s;
  }
  public static Value ArrNorm(final Value a) { return Num.NSqrt(RDot(a, a)); }
  public static Value MaxAbs(final Value a) {
    NumValue m = NumValue.ZERO;
    for (NumValue x : flat(a)) {
      NumValue y = Num.abs(x);
      if (y.sp == NumValue.NAN) return y;
      if (Num.cmp(y, m) == 1) m = y;
    }
    return m;
  }
  public static Value AllFin(final Value a) { for (NumValue x : flat(a)) if (!x.fin()) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  public static Value AllReal(final Value a) { for (NumValue x : flat(a)) if (x.im != null) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  public static Value IsArr(final Value a) { return Num.bool(isArr(a)); }
  static boolean isArr(Value a) {
    if (leaf(a)) return true;
    if (!(a instanceof TupleValue)) return false;
    for (Value x : ((TupleValue) a).elems) if (!isArr(x)) return false;
    return true;
  }
  // ---- matrices
  static NumValue[][] mm(NumValue[][] a, NumValue[][] b) {
    int m = a.length, k = b.length, n = k == 0 ? 0 : b[0].length;
    NumValue[][] c = new NumValue[m][n];
    for (int i = 0; i < m; i++) {
      if (a[i].length != k) throw err("MatMul shape " + a[i].length + " vs " + k);
      for (int j = 0; j < n; j++) {
        NumValue s = NumValue.ZERO;
        for (int l = 0; l < k; l++) s = Num.add(s, Num.mul(a[i][l], b[l][j]));
        c[i][j] = s;
      }
    }
    return c;
  }
  static NumValue[][] herm(NumValue[][] a, boolean cj) {
    int m = a.length, n = m == 0 ? 0 : a[0].length;
    NumValue[][] c = new NumValue[n][m];
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) c[i][j] = cj ? Num.conj(a[j][i]) : a[j][i];
    return c;
  }
  static NumValue[][] eye(int n) {
    NumValue[][] c = new NumValue[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c[i][j] = i == j ? NumValue.ONE : NumValue.ZERO;
    return c;
  }
  static boolean fin(NumValue[][] a) { for (NumValue[] r : a) for (NumValue x : r) if (!x.fin()) return false; return true; }
  static NumValue[][] nan(int m, int n) { NumValue[][] c = new NumValue[m][n]; for (NumValue[] r : c) Arrays.fill(r, NumValue.NaN); return c; }
  public static Value MatMul(final Value a, final Value b) { return val(mm(mat(a), mat(b))); }
  public static Value Transp(final Value a) { return val(herm(mat(a), false)); }
  public static Value Herm(final Value a) { return val(herm(mat(a), true)); }
  public static Value Eye(final Value n) { return val(eye(((IntValue) n).val)); }
  public static Value Tr(final Value a) {
    NumValue s = NumValue.ZERO; NumValue[][] m = mat(a);
    for (int i = 0; i < m.length; i++) s = Num.add(s, m[i][i]);
    return s;
  }
  public static Value Diag(final Value v) {
    NumValue[] d = vec(v); NumValue[][] c = eye(d.length);
    for (int i = 0; i < d.length; i++) c[i][i] = d[i];
    return val(c);
  }
  public static Value DiagOf(final Value a) {
    NumValue[][] m = mat(a); int k = Math.min(m.length, m.length == 0 ? 0 : m[0].length);
    NumValue[] d = new NumValue[k];
    for (int i = 0; i < k; i++) d[i] = m[i][i];
    return val(d);
  }
  /** Gauss-Jordan with partial pivoting; NaN matrix when singular.  Returns A^-1 B; det in out[0]. */
  static NumValue[][] solve(NumValue[][] a0, NumValue[][] b0, NumValue[] out) {
    int n = a0.length, m = b0.length == 0 ? 0 : b0[0].length;
    if (!fin(a0) || !fin(b0)) { out[0] = NumValue.NaN; return nan(n, m); }
    NumValue[][] a = new NumValue[n][], b = new NumValue[n][];
    for (int i = 0; i < n; i++) { a[i] = a0[i].clone(); b[i] = b0[i].clone(); }
    NumValue det = NumValue.ONE;
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (Num.cmp(Num.abs(a[i][c]), Num.abs(a[p][c])) == 1) p = i;
      if (Num.abs(a[p][c]).re.signum() == 0) { out[0] = NumValue.ZERO; return nan(n, m); }
      if (p != c) { NumValue[] t = a[p]; a[p] = a[c]; a[c] = t; t = b[p]; b[p] = b[c]; b[c] = t; det = Num.neg(det); }
      det = Num.mul(det, a[c][c]);
      NumValue inv = Num.div(NumValue.ONE, a[c][c]);
      for (int j = c; j < n; j++) a[c][j] = Num.mul(a[c][j], inv);
      for (int j = 0; j < m; j++) b[c][j] = Num.mul(b[c][j], inv);
      for (int i = 0; i < n; i++) if (i != c) {
        NumValue f = a[i][c];
        if (f.re.signum() == 0 && f.im == null) continue;
        for (int j = c; j < n; j++) a[i][j] = Num.sub(a[i][j], Num.mul(f, a[c][j]));
        for (int j = 0; j < m; j++) b[i][j] = Num.sub(b[i][j], Num.mul(f, b[c][j]));
      }
    }
    out[0] = det;
    return b;
  }
  public static Value Solve(final Value a, final Value b) { return val(solve(mat(a), mat(b), new NumValue[1])); }
  public static Value Inv(final Value a) { NumValue[][] m = mat(a); return val(solve(m, eye(m.length), new NumValue[1])); }
  public static Value Det(final Value a) { NumValue[][] m = mat(a); NumValue[] o = new NumValue[1]; solve(m, eye(m.length), o); return o[0]; }
  static NumValue[][] sc(NumValue c, NumValue[][] a) { NumValue[][] r = new NumValue[a.length][]; for (int i = 0; i < r.length; i++) { r[i] = new NumValue[a[i].length]; for (int j = 0; j < r[i].length; j++) r[i][j] = Num.mul(c, a[i][j]); } return r; }
  static NumValue[][] ad(NumValue[][] a, NumValue[][] b) { NumValue[][] r = new NumValue[a.length][]; for (int i = 0; i < r.length; i++) { r[i] = new NumValue[a[i].length]; for (int j = 0; j < r[i].length; j++) r[i][j] = Num.add(a[i][j], b[i][j]); } return r; }
  static double maxd(NumValue[][] a) { double m = 0; for (NumValue[] r : a) for (NumValue x : r) m = Math.max(m, Math.abs(Num.abs(x).re.doubleValue())); return m; }
  public static Value ExpM(final Value a) {
    NumValue[][] m = mat(a); int n = m.length;
    if (!fin(m)) return val(nan(n, n));
    double nn = maxd(m) * n; int h = 0;
    if (nn > 1e5) return val(nan(n, n));
    while (nn > 0.01) { nn /= 2; h++; }
    NumValue[][] r = sc(new NumValue(BigDecimal.ONE.divide(new BigDecimal(BigInteger.ONE.shiftLeft(h)), MC)), m), s = eye(n), t = eye(n);
    for (int i = 1; i < 60; i++) {
      t = sc(new NumValue(BigDecimal.ONE.divide(BigDecimal.valueOf(i), MC)), mm(t, r));
      s = ad(s, t);
      if (maxd(t) < 1e-46) break;
    }
    for (int i = 0; i < h; i++) s = mm(s, s);
    return val(s);
  }
  /** Hermitian eigendecomposition by cyclic Jacobi.  d ascending, v columns. */
  static NumValue[][] jacobi(NumValue[][] a0, NumValue[] d) {
    int n = a0.length;
    NumValue[][] a = new NumValue[n][n], v = eye(n);
    NumValue half = new NumValue(new BigDecimal("0.5"));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = Num.mul(half, Num.add(a0[i][j], Num.conj(a0[j][i])));
    if (!fin(a)) { Arrays.fill(d, NumValue.NaN); return nan(n, n); }
    double scale = maxd(a);
    BigDecimal thr = new BigDecimal(scale == 0 ? 1 : scale).multiply(new BigDecimal("1e-41"));
    for (int sweep = 0; sweep < 40; sweep++) {
      boolean done = true;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
        BigDecimal g = Num.abs(a[p][q]).re;
        if (g.compareTo(thr) <= 0) continue;
        done = false;
        // phase: a[p][q] = g * e^{i phi}; rotate column q by phase to make it real
        NumValue ph = Num.div(a[p][q], new NumValue(g));
        BigDecimal theta = a[q][q].re.subtract(a[p][p].re, MC).divide(g.multiply(BigDecimal.valueOf(2)), MC);
        BigDecimal t = BigDecimal.ONE.divide(theta.abs().add(theta.multiply(theta, MC).add(BigDecimal.ONE).sqrt(MC), MC), MC);
        if (theta.signum() < 0) t = t.negate();
        BigDecimal c = BigDecimal.ONE.divide(t.multiply(t, MC).add(BigDecimal.ONE).sqrt(MC), MC);
        BigDecimal s = t.multiply(c, MC);
        NumValue C = new NumValue(c), S = new NumValue(s), Sp = Num.mul(S, ph), Spc = Num.conj(Sp);
        // J: col p' = c p - s conj(ph) q ; col q' = s ph p + c q   (J unitary)
        for (int i = 0; i < n; i++) {
          NumValue x = a[i][p], y = a[i][q];
          a[i][p] = Num.sub(Num.mul(C, x), Num.mul(Spc, y));
          a[i][q] = Num.add(Num.mul(Sp, x), Num.mul(C, y));
          x = v[i][p]; y = v[i][q];
          v[i][p] = Num.sub(Num.mul(C, x), Num.mul(Spc, y));
          v[i][q] = Num.add(Num.mul(Sp, x), Num.mul(C, y));
        }
        for (int i = 0; i < n; i++) {
          NumValue x = a[p][i], y = a[q][i];
          a[p][i] = Num.sub(Num.mul(C, x), Num.mul(Sp, y));
          a[q][i] = Num.add(Num.mul(Spc, x), Num.mul(C, y));
        }
      }
      if (done) break;
    }
    Integer[] ix = new Integer[n];
    for (int i = 0; i < n; i++) ix[i] = i;
    final NumValue[][] A = a;
    Arrays.sort(ix, (i, j) -> A[i][i].re.compareTo(A[j][j].re));
    NumValue[][] w = new NumValue[n][n];
    for (int j = 0; j < n; j++) { d[j] = new NumValue(a[ix[j]][ix[j]].re); for (int i = 0; i < n; i++) w[i][j] = v[i][ix[j]]; }
    return w;
  }
  /** << eigenvalues ascending, matrix of eigenvectors (columns) >> of the Hermitian part of a. */
  public static Value EigH(final Value a) {
    NumValue[][] m = mat(a); NumValue[] d = new NumValue[m.length];
    NumValue[][] v = jacobi(m, d);
    return new TupleValue(new Value[]{val(d), val(v)});
  }
  static NumValue[][] fun(NumValue[][] m, F1 f) {
    int n = m.length; NumValue[] d = new NumValue[n];
    NumValue[][] v = jacobi(m, d), vd = new NumValue[n][n];
    for (int j = 0; j < n; j++) { NumValue e = f.f(d[j]); for (int i = 0; i < n; i++) vd[i][j] = Num.mul(v[i][j], e); }
    return mm(vd, herm(v, true));
  }
  public static Value SqrtH(final Value a) { return val(fun(mat(a), x -> (NumValue) Num.NSqrt(x))); }
  public static Value LogH(final Value a) { return val(fun(mat(a), x -> (NumValue) Num.NLog(x))); }
  public static Value ExpH(final Value a) { return val(fun(mat(a), Num::exp)); }
  public static Value InvSqrtH(final Value a) { return val(fun(mat(a), x -> Num.div(NumValue.ONE, (NumValue) Num.NSqrt(x)))); }
  /** Thin QR by modified Gram-Schmidt (twice), R with positive diagonal: << Q, R >>. */
  public static Value QR(final Value a) {
    NumValue[][] m = mat(a); int r = m.length, c = r == 0 ? 0 : m[0].length;
    NumValue[][] q = herm(m, false);              // rows are columns of m
    NumValue[][] R = new NumValue[c][c];
    for (NumValue[] x : R) Arrays.fill(x, NumValue.ZERO);
    for (int j = 0; j < c; j++) {
      for (int pass = 0; pass < 2; pass++)
        for (int i = 0; i < j; i++) {
          NumValue s = NumValue.ZERO;
          for (int k = 0; k < r; k++) s = Num.add(s, Num.mul(Num.conj(q[i][k]), q[j][k]));
          R[i][j] = Num.add(R[i][j], s);
          for (int k = 0; k < r; k++) q[j][k] = Num.sub(q[j][k], Num.mul(s, q[i][k]));
        }
      NumValue nn = NumValue.ZERO;
      for (int k = 0; k < r; k++) nn = Num.add(nn, Num.mul(Num.conj(q[j][k]), q[j][k]));
      NumValue nr = (NumValue) Num.NSqrt(nn.fin() ? new NumValue(nn.re) : nn);
      R[j][j] = nr;
      for (int k = 0; k < r; k++) q[j][k] = Num.div(q[j][k], nr);
    }
    return new TupleValue(new Value[]{val(herm(q, false)), val(R)});
  }
  /** Number of rows of the list of vectors that are independent up to relative tolerance tol (real coefficients). */
  public static Value RankOf(final Value vs, final Value tol) {
    Value[] e = el(vs);
    List<List<NumValue>> basis = new ArrayList<>();
    NumValue big = NumValue.ZERO;
    for (Value x : e) {
      NumValue n0 = (NumValue) ArrNorm(x);
      if (n0.fin() && Num.cmp(big, n0) == -1) big = n0;
    }
    for (Value x : e) {
      List<NumValue> w = new ArrayList<>();
      for (NumValue y : flat(x)) { if (!y.fin()) return IntValue.gen(-1); w.add(new NumValue(y.re)); w.add(new NumValue(y.imz())); }
      NumValue n0 = Num.mul(big, big);
      for (int pass = 0; pass < 2; pass++) for (List<NumValue> b : basis) {
        NumValue s = dot(b, w);
        for (int i = 0; i < w.size(); i++) w.set(i, Num.sub(w.get(i), Num.mul(s, b.get(i))));
      }
      NumValue n1 = dot(w, w);
      NumValue t = Num.n(tol);
      if (n0.re.signum() > 0 && Num.cmp(n1, Num.mul(Num.mul(t, t), n0)) == 1) {
        NumValue r = Num.div(NumValue.ONE, (NumValue) Num.NSqrt(n1));
        List<NumValue> b = new ArrayList<>();
        for (NumValue y : w) b.add(Num.mul(r, y));
        basis.add(b);
      }
    }
    return IntValue.gen(basis.size());
  }
  static NumValue dot(List<NumValue> a, List<NumValue> b) { NumValue s = NumValue.ZERO; for (int i = 0; i < a.size(); i++) s = Num.add(s, Num.mul(a.get(i), b.get(i))); return s; }
}
