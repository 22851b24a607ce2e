// TLC module override for spec/Real64.tla: real-number arithmetic evaluated in IEEE double precision.
// A real is a TLA+ string holding a decimal literal (Double.toString / Python repr round-trip exactly).
import tlc2.value.impl.*;
import util.UniqueString;

public class Real64 {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    String s = ((StringValue) v).getVal().toString();
    switch (s) {
      case "nan": case "NaN": case "none": return Double.NaN;
      case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
      case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
    }
    return Double.parseDouble(s);
  }
  static Value r(double x) {
    if (Double.isNaN(x)) return new StringValue("nan");
    return new StringValue(Double.toString(x));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] a = new double[t.elems.length];
    for (int i = 0; i < a.length; i++) a[i] = d((Value) t.elems[i]);
    return a;
  }
  public static Value R(Value n) { return r(d(n)); }
  public static Value RRatio(Value n, Value m) { return r(d(n) / d(m)); }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RLn(Value a) { return r(Math.log(d(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value RIsNum(Value a) {
    if (!(a instanceof StringValue) && !(a instanceof IntValue)) return b(false);
    try { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); } catch (NumberFormatException e) { return b(false); }
  }
  public static Value RIsNaN(Value a) {
    if (!(a instanceof StringValue)) return b(false);
    try { return b(Double.isNaN(d(a))); } catch (NumberFormatException e) { return b(false); }
  }
  // |a-b| <= atol + rtol*max(|a|,|b|); false whenever either is not a finite number
  public static Value RClose(Value a, Value c, Value rtol, Value atol) {
    double x, y;
    try { x = d(a); y = d(c); } catch (Exception e) { return b(false); }
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
    return b(Math.abs(x - y) <= d(atol) + d(rtol) * Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value RSum(Value s) { double t = 0; for (double x : seq(s)) t += x; return r(t); }
  public static Value RProd(Value s) { double t = 1; for (double x : seq(s)) t *= x; return r(t); }
  public static Value RDot(Value s, Value u) {
    double[] a = seq(s), c = seq(u); double t = 0;
    for (int i = 0; i < a.length; i++) t += a[i] * c[i];
    return r(t);
  }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RNormPdf(Value a) { double x = d(a); return r(Math.exp(-0.5 * x * x) / Math.sqrt(2 * Math.PI)); }
  public static Value RNormCdf(Value a) { return r(cdf(d(a))); }

  // complex numbers <<re, im>>
  static double[] c(Value v) { return seq(v); }
  static Value z(double x, double y) { return new TupleValue(new Value[] { r(x), r(y) }); }
  static double[] csqrt(double x, double y) {
    double m = Math.hypot(x, y);
    if (m == 0) return new double[] { 0, 0 };
    double a = Math.sqrt((m + Math.abs(x)) / 2), b = Math.abs(y) / (2 * a);
    return x >= 0 ? new double[] { a, y < 0 ? -b : b } : new double[] { b, y < 0 ? -a : a };
  }
  public static Value CAdd(Value a, Value b) { double[] x = c(a), y = c(b); return z(x[0] + y[0], x[1] + y[1]); }
  public static Value CSub(Value a, Value b) { double[] x = c(a), y = c(b); return z(x[0] - y[0], x[1] - y[1]); }
  public static Value CMul(Value a, Value b) { double[] x = c(a), y = c(b); return z(x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]); }
  public static Value CDiv(Value a, Value b) {
    double[] x = c(a), y = c(b);
    double m = y[0] * y[0] + y[1] * y[1];
    return z((x[0] * y[0] + x[1] * y[1]) / m, (x[1] * y[0] - x[0] * y[1]) / m);
  }
  public static Value CSqrt(Value a) { double[] x = c(a), y = csqrt(x[0], x[1]); return z(y[0], y[1]); }
  public static Value CExp(Value a) { double[] x = c(a); double m = Math.exp(x[0]); return z(m * Math.cos(x[1]), m * Math.sin(x[1])); }
  public static Value CLn(Value a) { double[] x = c(a); return z(Math.log(Math.hypot(x[0], x[1])), Math.atan2(x[1], x[0])); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }

  // solution of the square linear system A x = b (Gaussian elimination with partial pivoting)
  public static Value RSolve(Value am, Value bv) {
    TupleValue rows = (TupleValue) am.toTuple();
    int n = rows.elems.length;
    double[][] a = new double[n][];
    for (int i = 0; i < n; i++) a[i] = seq((Value) rows.elems[i]);
    double[] y = seq(bv);
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
      double[] t = a[k]; a[k] = a[p]; a[p] = t;
      double u = y[k]; y[k] = y[p]; y[p] = u;
      for (int i = k + 1; i < n; i++) {
        double f = a[i][k] / a[k][k];
        for (int j = k; j < n; j++) a[i][j] -= f * a[k][j];
        y[i] -= f * y[k];
      }
    }
    for (int k = n - 1; k >= 0; k--) {
      for (int j = k + 1; j < n; j++) y[k] -= a[k][j] * y[j];
      y[k] /= a[k][k];
    }
    Value[] out = new Value[n];
    for (int i = 0; i < n; i++) out[i] = r(y[i]);
    return new TupleValue(out);
  }

  // erfc by series / continued fraction, accurate to about 1e-15 relative on the range used
  static double erfc(double x) {
    if (x < 0) return 2 - erfc(-x);
    if (x < 2.5) {
      double sum = x, term = x;
      for (int n = 1; n < 200; n++) {
        term *= -x * x / n;
        double add = term / (2 * n + 1);
        sum += add;
        if (Math.abs(add) < 1e-18 * Math.abs(sum)) break;
      }
      return 1 - 2 / Math.sqrt(Math.PI) * sum;
    }
    if (x > 27) return 0;
    double f = 0;
    for (int k = 200; k >= 1; k--) f = (k / 2.0) / (x + f);
    return Math.exp(-x * x) / Math.sqrt(Math.PI) / (x + f);
  }
  static double cdf(double x) {
    if (Double.isNaN(x)) return x;
    return 0.5 * erfc(-x / Math.sqrt(2));
  }
}
