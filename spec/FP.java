// Java implementation of module FP: see FP.tla for the meaning of the operators.
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class FP {
  static double d(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return Double.longBitsToDouble(
        (((long) ((IntValue) e[0]).val) << 32) | (((IntValue) e[1]).val & 0xffffffffL));
  }
  static Value v(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static Value bv(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }

  // Pseudo-random bits, a pure function of the mode, the operation and the operands.
  static int bits(int m, int op, double a, double b) {
    long h = Double.doubleToLongBits(a) * 0x9E3779B97F4A7C15L + op;
    h ^= h >>> 29;
    h = (h + Double.doubleToLongBits(b) + m) * 0xBF58476D1CE4E5B9L;
    h ^= h >>> 32;
    h *= 0x94D049BB133111EBL;
    return (int) (h >>> 60);
  }
  static boolean coin(int m, int op, double a, double b) { return ((bits(m, op, a, b) >>> 1) & 1) == 0; }
  // The wide modes take a neighbour on either side.
  static boolean wide(int m) { return m >= 5 && m % 2 == 1; }
  // Rounds x, computed in double, to single precision according to the mode.
  static Value fr(int m, int op, double a, double b, double x) {
    if (m == 1) return v(x);
    float r = (float) x;
    if (m == 0 || (double) r == x || Double.isNaN(x) || Float.isInfinite(r)) return v(r);
    if (wide(m)) {
      int k = bits(m, op, a, b) & 3;
      return v(k == 0 ? Math.nextUp(r) : k == 1 ? Math.nextDown(r) : r);
    }
    if (coin(m, op, a, b)) return v(r);
    return v(((double) r < x) ? Math.nextUp(r) : Math.nextDown(r));
  }
  // x is the double nearest to the exact result, err has the sign of exact - x.
  static Value dr(int m, int op, double a, double b, double x, double err) {
    if (m <= 1 || err == 0 || Double.isNaN(err) || Double.isInfinite(x)) return v(x);
    if (wide(m)) {
      int k = bits(m, op, a, b) & 3;
      return v(k == 0 ? Math.nextUp(x) : k == 1 ? Math.nextDown(x) : x);
    }
    if (coin(m, op, a, b)) return v(x);
    return v(err > 0 ? Math.nextUp(x) : Math.nextDown(x));
  }
  public static Value FPAdd(Value m, Value a, Value b) { double x = d(a), y = d(b); return fr(i(m), 1, x, y, x + y); }
  public static Value FPSub(Value m, Value a, Value b) { double x = d(a), y = d(b); return fr(i(m), 2, x, y, x - y); }
  public static Value FPMul(Value m, Value a, Value b) { double x = d(a), y = d(b); return fr(i(m), 3, x, y, x * y); }
  public static Value FPDiv(Value m, Value a, Value b) { double x = d(a), y = d(b); return fr(i(m), 4, x, y, x / y); }
  public static Value FPHypot(Value m, Value a, Value b) {
    double x = d(a), y = d(b);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return v(Double.POSITIVE_INFINITY);
    return fr(i(m), 5, x, y, Math.sqrt(x * x + y * y));
  }
  /* acos is singular at the ends: the modes that explore rounding take an argument a few units off on either side. */
  public static Value FPAcos(Value m, Value a) {
    double x = d(a);
    if (i(m) >= 2) x = i(m) % 2 == 0 ? Math.min(1, x + 4e-7) : Math.max(-1, x - 4e-7);
    return fr(i(m), 6, x, 0, Math.acos(x));
  }
  public static Value FPRnd(Value m, Value a) { double x = d(a); return fr(i(m), 7, x, 0, x); }
  static double addErr(double x, double y, double s) {
    double bb = s - x;
    return (x - (s - bb)) + (y - bb);
  }
  public static Value FPDAdd(Value m, Value a, Value b) {
    double x = d(a), y = d(b), s = x + y;
    return i(m) <= 1 ? v(s) : dr(i(m), 8, x, y, s, addErr(x, y, s));
  }
  public static Value FPDSub(Value m, Value a, Value b) {
    double x = d(a), y = -d(b), s = x + y;
    return i(m) <= 1 ? v(s) : dr(i(m), 9, x, y, s, addErr(x, y, s));
  }
  public static Value FPDMul(Value m, Value a, Value b) {
    double x = d(a), y = d(b), s = x * y;
    return i(m) <= 1 ? v(s) : dr(i(m), 10, x, y, s, Math.fma(x, y, -s));
  }
  public static Value FPDDiv(Value m, Value a, Value b) {
    double x = d(a), y = d(b), q = x / y;
    return i(m) <= 1 ? v(q) : dr(i(m), 11, x, y, q, Math.fma(-q, y, x) * Math.signum(y));
  }
  public static Value FPDHypot(Value m, Value a, Value b) {
    double x = d(a), y = d(b), h = Math.hypot(x, y);
    return i(m) <= 1 ? v(h) : dr(i(m), 12, x, y, h, Math.fma(-h, h, x * x + y * y));
  }
  public static Value FPDSqrt(Value m, Value a) { double x = d(a); return v(Math.sqrt(x)); }

  public static Value NNeg(Value a) { return v(-d(a)); }
  public static Value NAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value Ceil(Value a) { return v(Math.ceil(d(a))); }
  public static Value Fmod(Value a, Value b) { return v(d(a) % d(b)); }
  public static Value NMax(Value a, Value b) { return d(a) < d(b) ? b : a; }
  public static Value NMin(Value a, Value b) { return d(b) < d(a) ? b : a; }
  public static Value Fmax(Value a, Value b) {
    double x = d(a), y = d(b);
    return Double.isNaN(x) ? b : Double.isNaN(y) ? a : x < y ? b : a;
  }
  public static Value Fmin(Value a, Value b) {
    double x = d(a), y = d(b);
    return Double.isNaN(x) ? b : Double.isNaN(y) ? a : y < x ? b : a;
  }
  public static Value Lt(Value a, Value b) { return bv(d(a) < d(b)); }
  public static Value Le(Value a, Value b) { return bv(d(a) <= d(b)); }
  public static Value Eq(Value a, Value b) { return bv(d(a) == d(b)); }
  static boolean same(double x, double y) { return x == y || (Double.isNaN(x) && Double.isNaN(y)); }
  public static Value Same(Value a, Value b) { return bv(same(d(a), d(b))); }
  public static Value IsNaN(Value a) { return bv(Double.isNaN(d(a))); }
  public static Value IsFin(Value a) { return bv(Double.isFinite(d(a))); }
  public static Value OfInt(Value n) { return v(i(n)); }
  public static Value ToInt(Value a) { return IntValue.gen((int) d(a)); }
  public static Value OfRat(Value p, Value q) { return v((double) i(p) / (double) i(q)); }
  public static Value AsF(Value a) { return v((float) d(a)); }
  private static final Value PI = v(Math.PI), TPI = v(2 * Math.PI);
  public static Value KPi() { return PI; }
  public static Value TwoPi() { return TPI; }
  public static Value Scale(Value a, Value k) { return v(Math.scalb(d(a), i(k))); }

  static double diff(double x, double y) {
    if (same(x, y)) return 0;
    double r = Math.abs(x - y);
    return Double.isNaN(r) ? Double.POSITIVE_INFINITY : r;
  }
  static double diffA(double x, double y) {
    double r = diff(x, y);
    if (r == 0 || Double.isInfinite(r)) return r;
    r = r % (2 * Math.PI);
    return Math.min(r, 2 * Math.PI - r);
  }
  public static Value Spread(Value xs) {
    Value[] e = ((TupleValue) xs.toTuple()).elems;
    double x0 = d(e[0]), r = 0;
    for (int k = 1; k < e.length; k++) r = Math.max(r, diff(x0, d(e[k])));
    return v(r);
  }
  public static Value SpreadA(Value xs) {
    Value[] e = ((TupleValue) xs.toTuple()).elems;
    double x0 = d(e[0]), r = 0;
    for (int k = 1; k < e.length; k++) r = Math.max(r, diffA(x0, d(e[k])));
    return v(r);
  }
  public static Value Close(Value a, Value b, Value tol) { return bv(diff(d(a), d(b)) <= d(tol)); }
  public static Value CloseA(Value a, Value b, Value tol) { return bv(diffA(d(a), d(b)) <= d(tol)); }
  public static Value Show(Value a) { return new StringValue(Double.toString(d(a))); }
}
