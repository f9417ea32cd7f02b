import tlc2.value.impl.*;
import util.UniqueString;

/** Fast evaluation of the operators marked (J) in module LinAlg. The TLA+ definitions are normative. */
public class LinAlg extends F64 {
  static final UniqueString R = UniqueString.uniqueStringOf("r");
  static final UniqueString C = UniqueString.uniqueStringOf("c");
  static final UniqueString D = UniqueString.uniqueStringOf("d");
  static final UniqueString OK = UniqueString.uniqueStringOf("ok");
  static final UniqueString L = UniqueString.uniqueStringOf("L");
  static final UniqueString PIV = UniqueString.uniqueStringOf("piv");

  static Value[] el(Value v) { return v instanceof TupleValue ? ((TupleValue) v).elems : ((TupleValue) v.toTuple()).elems; }
  static double[] vec(Value v) {
    Value[] e = el(v);
    double[] r = new double[e.length];
    for (int i = 0; i < e.length; i++) r[i] = d(e[i]);
    return r;
  }
  static Value val(double[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < x.length; i++) e[i] = v(x[i]);
    return new TupleValue(e);
  }
  static class M {
    int r, c;
    double[] d;
    M(int r, int c) { this.r = r; this.c = c; d = new double[r * c]; }
    double at(int i, int j) { return d[i * c + j]; }
  }
  static M mat(Value v) {
    RecordValue rec = (RecordValue) v.toRcd();
    M m = new M(((IntValue) rec.select(new StringValue(R))).val, ((IntValue) rec.select(new StringValue(C))).val);
    double[] x = vec((Value) rec.select(new StringValue(D)));
    if (x.length != m.d.length) throw new RuntimeException("matrix shape");
    m.d = x;
    return m;
  }
  static Value val(M m) {
    return rec(new UniqueString[] {R, C, D}, new Value[] {IntValue.gen(m.r), IntValue.gen(m.c), val(m.d)});
  }
  static Value rec(UniqueString[] n, Value[] v) {
    RecordValue r = new RecordValue(n, v, false);
    r.deepNormalize();
    return r;
  }
  static double dot(double[] a, double[] b) {
    if (a.length != b.length) throw new RuntimeException("vector length");
    double s = 0;
    for (int i = 0; i < a.length; i++) s += a[i] * b[i];
    return s;
  }
  static void same(double[] a, double[] b) { if (a.length != b.length) throw new RuntimeException("vector length"); }

  public static Value VSum(Value a) { double s = 0; for (double x : vec(a)) s += x; return v(s); }
  public static Value VAdd(Value a, Value b) { double[] x = vec(a), y = vec(b); same(x, y); for (int i = 0; i < x.length; i++) x[i] += y[i]; return val(x); }
  public static Value VSub(Value a, Value b) { double[] x = vec(a), y = vec(b); same(x, y); for (int i = 0; i < x.length; i++) x[i] -= y[i]; return val(x); }
  public static Value VMul(Value a, Value b) { double[] x = vec(a), y = vec(b); same(x, y); for (int i = 0; i < x.length; i++) x[i] *= y[i]; return val(x); }
  public static Value VDiv(Value a, Value b) { double[] x = vec(a), y = vec(b); same(x, y); for (int i = 0; i < x.length; i++) x[i] /= y[i]; return val(x); }
  public static Value VScale(Value s, Value a) { double k = d(s); double[] x = vec(a); for (int i = 0; i < x.length; i++) x[i] = k * x[i]; return val(x); }
  public static Value VDot(Value a, Value b) { return v(dot(vec(a), vec(b))); }
  public static Value MT(Value a) {
    M A = mat(a), T = new M(A.c, A.r);
    for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) T.d[j * A.r + i] = A.at(i, j);
    return val(T);
  }
  public static Value MMul(Value a, Value b) {
    M A = mat(a), B = mat(b), X = new M(A.r, B.c);
    if (A.c != B.r) throw new RuntimeException("matrix shape");
    for (int i = 0; i < A.r; i++)
      for (int j = 0; j < B.c; j++) {
        double s = 0;
        for (int k = 0; k < A.c; k++) s += A.at(i, k) * B.at(k, j);
        X.d[i * B.c + j] = s;
      }
    return val(X);
  }
  public static Value MVec(Value a, Value b) {
    M A = mat(a);
    double[] x = vec(b), y = new double[A.r];
    if (A.c != x.length) throw new RuntimeException("matrix shape");
    for (int i = 0; i < A.r; i++) { double s = 0; for (int k = 0; k < A.c; k++) s += A.at(i, k) * x[k]; y[i] = s; }
    return val(y);
  }
  public static Value MTVec(Value a, Value b) {
    M A = mat(a);
    double[] x = vec(b), y = new double[A.c];
    if (A.r != x.length) throw new RuntimeException("matrix shape");
    for (int i = 0; i < A.c; i++) { double s = 0; for (int k = 0; k < A.r; k++) s += A.at(k, i) * x[k]; y[i] = s; }
    return val(y);
  }
  public static Value Chol(Value a) {
    M A = mat(a);
    int n = A.r;
    double[][] l = new double[n][];
    double[] piv = new double[n];
    boolean ok = true;
    for (int i = 0; i < n; i++) {
      l[i] = new double[i + 1];
      for (int j = 0; j <= i; j++) {
        double s = 0;
        for (int k = 0; k < j; k++) s += l[i][k] * (j == i ? l[i][k] : l[j][k]);
        s = A.at(i, j) - s;
        l[i][j] = i == j ? Math.sqrt(s) : s / l[j][j];
        if (i == j) piv[i] = s;
      }
      ok = ok && piv[i] > 0;
    }
    Value[] rows = new Value[n];
    for (int i = 0; i < n; i++) rows[i] = val(l[i]);
    return rec(new UniqueString[] {OK, L, PIV}, new Value[] {b(ok), new TupleValue(rows), val(piv)});
  }
  public static Value CholSolve(Value lv, Value bv) {
    Value[] rows = el(lv);
    double[] b = vec(bv);
    int n = b.length;
    double[][] l = new double[n][];
    for (int i = 0; i < n; i++) l[i] = vec(rows[i]);
    double[] y = new double[n];
    for (int i = 0; i < n; i++) {
      double s = 0;
      for (int k = 0; k < i; k++) s += y[k] * l[i][k];
      y[i] = (b[i] - s) / l[i][i];
    }
    double[] x = new double[n];
    for (int i = n - 1; i >= 0; i--) {
      double s = 0;
      for (int k = i + 1; k < n; k++) s += l[k][i] * x[k];
      x[i] = (y[i] - s) / l[i][i];
    }
    return val(x);
  }
  static double[] elim(double[][] rows, int n) {
    if (n == 0) return new double[0];
    int p = -1;
    for (int i = 0; i < n && p < 0; i++) {
      boolean top = true;
      for (int j = 0; j < n; j++) top = top && Math.abs(rows[j][0]) <= Math.abs(rows[i][0]);
      if (top) p = i;
    }
    if (p < 0 || rows[p][0] == 0) return null;
    double[][] red = new double[n - 1][n];
    for (int k = 0; k < n - 1; k++) {
      double[] q = rows[k < p ? k : k + 1];
      double f = q[0] / rows[p][0];
      for (int j = 0; j < n; j++) red[k][j] = q[j + 1] - f * rows[p][j + 1];
    }
    double[] x = elim(red, n - 1);
    if (x == null) return null;
    double s = 0;
    for (int k = 0; k < n - 1; k++) s += rows[p][k + 1] * x[k];
    double[] r = new double[n];
    r[0] = (rows[p][n] - s) / rows[p][0];
    System.arraycopy(x, 0, r, 1, n - 1);
    return r;
  }
  public static Value Solve(Value a, Value bv) {
    M A = mat(a);
    double[] b = vec(bv);
    double[][] rows = new double[A.r][A.r + 1];
    for (int i = 0; i < A.r; i++) { for (int j = 0; j < A.r; j++) rows[i][j] = A.at(i, j); rows[i][A.r] = b[i]; }
    double[] x = elim(rows, A.r);
    return val(x == null ? new double[0] : x);
  }
  static boolean close(double a, double b, double scale, double tol) {
    return (Double.isNaN(a) && Double.isNaN(b)) || a == b || Math.abs(a - b) <= tol * scale;
  }
  public static Value Close(Value a, Value b, Value scale, Value tol) { return b(close(d(a), d(b), d(scale), d(tol))); }
  public static Value VClose(Value a, Value b, Value scale, Value tol) {
    double[] x = vec(a), y = vec(b);
    if (x.length != y.length) return b(false);
    double s = d(scale), t = d(tol);
    for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], s, t)) return b(false);
    return b(true);
  }
}
