import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * Fast evaluation of the operators of spec/Fix.tla and spec/Mat.tla. Each
 * method computes the value of the TLA+ definition it stands for; the
 * equivalence is tested by spec/FixTest.tla.
 */
public class FixOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {FixOverrides.class}; }

  static final BigInteger MASK = BigInteger.valueOf(32767);
  static final int SHIFT = 60;
  static final BigInteger HALF = BigInteger.ONE.shiftLeft(SHIFT - 1);

  // ---------------------------------------------------------------- values
  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a tuple: " + v);
    return ((TupleValue) t).elems;
  }
  static int ival(Value v) { return ((IntValue) v).val; }

  /** null stands for NaN. */
  static BigInteger big(Value v) {
    Value[] e = elems(v);
    int s = ival(e[0]);
    if (s == 2) return null;
    if (s == 0) return BigInteger.ZERO;
    int n = e.length - 1;
    BigInteger r;
    if (n <= 4) {
      long l = 0;
      for (int i = n; i >= 1; i--) l = (l << 15) | ival(e[i]);
      r = BigInteger.valueOf(l);
    } else {
      long lo = 0, hi = 0;
      for (int i = 4; i >= 1; i--) lo = (lo << 15) | ival(e[i]);
      int top = Math.min(n, 8);
      for (int i = top; i >= 5; i--) hi = (hi << 15) | ival(e[i]);
      r = BigInteger.valueOf(hi).shiftLeft(60).or(BigInteger.valueOf(lo));
      for (int i = 9; i <= n; i++)
        r = r.or(BigInteger.valueOf(ival(e[i])).shiftLeft(15 * (i - 1)));
    }
    return s < 0 ? r.negate() : r;
  }
  static final IntValue[] INTS = new IntValue[32768];
  static {
    for (int i = 0; i < INTS.length; i++) INTS[i] = IntValue.gen(i);
  }
  static final IntValue NEG1 = IntValue.gen(-1);

  static Value val(BigInteger b) {
    if (b == null) return new TupleValue(new Value[] {IntValue.gen(2)});
    int s = b.signum();
    if (s == 0) return new TupleValue(new Value[] {INTS[0]});
    BigInteger m = b.abs();
    int n = (m.bitLength() + 14) / 15;
    Value[] e = new Value[n + 1];
    e[0] = s < 0 ? NEG1 : INTS[1];
    for (int i = 1; i <= n; i += 4) {
      long l = m.longValue() & ((1L << 60) - 1);
      for (int k = i; k < i + 4 && k <= n; k++) { e[k] = INTS[(int) (l & 32767)]; l >>= 15; }
      m = m.shiftRight(60);
    }
    return new TupleValue(e);
  }

  // --------------------------------------------------------------- scalars
  static BigInteger rshift(BigInteger p) {
    return p.signum() < 0 ? p.negate().add(HALF).shiftRight(SHIFT).negate()
                          : p.add(HALF).shiftRight(SHIFT);
  }
  static BigInteger mul(BigInteger a, BigInteger b) {
    return (a == null || b == null) ? null : rshift(a.multiply(b));
  }
  static BigInteger add(BigInteger a, BigInteger b) {
    return (a == null || b == null) ? null : a.add(b);
  }
  static BigInteger neg(BigInteger a) { return a == null ? null : a.negate(); }
  static BigInteger div(BigInteger a, BigInteger b) {
    if (a == null || b == null || b.signum() == 0) return null;
    BigInteger q = a.abs().shiftLeft(SHIFT).divide(b.abs());
    return a.signum() * b.signum() < 0 ? q.negate() : q;
  }
  static BigInteger sqrt(BigInteger a) {
    return (a == null || a.signum() < 0) ? null : a.shiftLeft(SHIFT).sqrt();
  }
  static int cmp(BigInteger a, BigInteger b) {
    return (a == null || b == null) ? 2 : a.compareTo(b);
  }

  @TLAPlusOperator(identifier = "FAdd", module = "Fix", warn = false)
  public static Value fadd(Value x, Value y) { return val(add(big(x), big(y))); }
  @TLAPlusOperator(identifier = "FSub", module = "Fix", warn = false)
  public static Value fsub(Value x, Value y) { return val(add(big(x), neg(big(y)))); }
  @TLAPlusOperator(identifier = "FMul", module = "Fix", warn = false)
  public static Value fmul(Value x, Value y) { return val(mul(big(x), big(y))); }
  @TLAPlusOperator(identifier = "FDiv", module = "Fix", warn = false)
  public static Value fdiv(Value x, Value y) { return val(div(big(x), big(y))); }
  @TLAPlusOperator(identifier = "FSqrt", module = "Fix", warn = false)
  public static Value fsqrt(Value x) { return val(sqrt(big(x))); }
  @TLAPlusOperator(identifier = "FCmp", module = "Fix", warn = false)
  public static Value fcmp(Value x, Value y) { return IntValue.gen(cmp(big(x), big(y))); }
  @TLAPlusOperator(identifier = "FLe", module = "Fix", warn = false)
  public static Value fle(Value x, Value y) {
    int c = cmp(big(x), big(y));
    return c <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  @TLAPlusOperator(identifier = "FLt", module = "Fix", warn = false)
  public static Value flt(Value x, Value y) {
    return cmp(big(x), big(y)) == -1 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  // ------------------------------------------------------ vectors, matrices
  static BigInteger[] vec(Value v) {
    Value[] e = elems(v);
    BigInteger[] r = new BigInteger[e.length];
    for (int i = 0; i < r.length; i++) r[i] = big(e[i]);
    return r;
  }
  static BigInteger[][] mat(Value v) {
    Value[] e = elems(v);
    BigInteger[][] r = new BigInteger[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
    return r;
  }
  static Value vval(BigInteger[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < e.length; i++) e[i] = val(a[i]);
    return new TupleValue(e);
  }
  static Value mval(BigInteger[][] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < e.length; i++) e[i] = vval(a[i]);
    return new TupleValue(e);
  }
  /** sum of the rounded products, in order (as the TLA+ definition does). */
  static BigInteger dot(BigInteger[] a, BigInteger[] b) {
    BigInteger s = BigInteger.ZERO;
    for (int i = 0; i < a.length; i++) {
      if (a[i] == null || b[i] == null) return null;
      if (a[i].signum() != 0 && b[i].signum() != 0) s = s.add(rshift(a[i].multiply(b[i])));
    }
    return s;
  }

  @TLAPlusOperator(identifier = "VAdd", module = "Mat", warn = false)
  public static Value vadd(Value x, Value y) {
    BigInteger[] a = vec(x), b = vec(y);
    for (int i = 0; i < a.length; i++) a[i] = add(a[i], b[i]);
    return vval(a);
  }
  @TLAPlusOperator(identifier = "VSub", module = "Mat", warn = false)
  public static Value vsub(Value x, Value y) {
    BigInteger[] a = vec(x), b = vec(y);
    for (int i = 0; i < a.length; i++) a[i] = add(a[i], neg(b[i]));
    return vval(a);
  }
  @TLAPlusOperator(identifier = "VScale", module = "Mat", warn = false)
  public static Value vscale(Value s, Value x) {
    BigInteger k = big(s);
    BigInteger[] a = vec(x);
    for (int i = 0; i < a.length; i++) a[i] = mul(k, a[i]);
    return vval(a);
  }
  @TLAPlusOperator(identifier = "Dot", module = "Mat", warn = false)
  public static Value vdot(Value x, Value y) { return val(dot(vec(x), vec(y))); }

  @TLAPlusOperator(identifier = "MAdd", module = "Mat", warn = false)
  public static Value madd(Value x, Value y) {
    BigInteger[][] a = mat(x), b = mat(y);
    for (int i = 0; i < a.length; i++)
      for (int j = 0; j < a[i].length; j++) a[i][j] = add(a[i][j], b[i][j]);
    return mval(a);
  }
  @TLAPlusOperator(identifier = "MSub", module = "Mat", warn = false)
  public static Value msub(Value x, Value y) {
    BigInteger[][] a = mat(x), b = mat(y);
    for (int i = 0; i < a.length; i++)
      for (int j = 0; j < a[i].length; j++) a[i][j] = add(a[i][j], neg(b[i][j]));
    return mval(a);
  }
  @TLAPlusOperator(identifier = "MScale", module = "Mat", warn = false)
  public static Value mscale(Value s, Value x) {
    BigInteger k = big(s);
    BigInteger[][] a = mat(x);
    for (int i = 0; i < a.length; i++)
      for (int j = 0; j < a[i].length; j++) a[i][j] = mul(k, a[i][j]);
    return mval(a);
  }
  @TLAPlusOperator(identifier = "MMul", module = "Mat", warn = false)
  public static Value mmul(Value x, Value y) {
    BigInteger[][] a = mat(x), b = mat(y);
    int m = b.length == 0 ? 0 : b[0].length;
    BigInteger[][] r = new BigInteger[a.length][m];
    BigInteger[] col = new BigInteger[b.length];
    for (int j = 0; j < m; j++) {
      for (int k = 0; k < b.length; k++) col[k] = b[k][j];
      for (int i = 0; i < a.length; i++) r[i][j] = dot(a[i], col);
    }
    return mval(r);
  }
  @TLAPlusOperator(identifier = "MV", module = "Mat", warn = false)
  public static Value mv(Value x, Value y) {
    BigInteger[][] a = mat(x);
    BigInteger[] b = vec(y), r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(a[i], b);
    return vval(r);
  }
  @TLAPlusOperator(identifier = "MT", module = "Mat", warn = false)
  public static Value mt(Value x) {
    Value[] rows = elems(x);
    if (rows.length == 0) return new TupleValue(new Value[0]);
    Value[][] e = new Value[rows.length][];
    for (int i = 0; i < e.length; i++) e[i] = elems(rows[i]);
    Value[] r = new Value[e[0].length];
    for (int j = 0; j < r.length; j++) {
      Value[] c = new Value[e.length];
      for (int i = 0; i < c.length; i++) c[i] = e[i][j];
      r[j] = new TupleValue(c);
    }
    return new TupleValue(r);
  }
  static BigInteger vmax(BigInteger[] a, BigInteger m) {
    if (m == null) return null;
    for (BigInteger b : a) {
      if (b == null) return null;
      BigInteger c = b.abs();
      if (c.compareTo(m) > 0) m = c;
    }
    return m;
  }
  @TLAPlusOperator(identifier = "VMax", module = "Mat", warn = false)
  public static Value vmaxv(Value x) { return val(vmax(vec(x), BigInteger.ZERO)); }
  @TLAPlusOperator(identifier = "MMax", module = "Mat", warn = false)
  public static Value mmaxv(Value x) {
    BigInteger m = BigInteger.ZERO;
    for (BigInteger[] r : mat(x)) m = vmax(r, m);
    return val(m);
  }
}
