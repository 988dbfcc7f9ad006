import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC override of Rat.tla: exact rationals as numerals "n" or "n/d". */
public class Rat {
  private static final class R {
    final BigInteger n, d;
    R(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d;
    }
  }
  private static final ConcurrentHashMap<String, R> CACHE = new ConcurrentHashMap<>();

  private static R p(final Value v) {
    if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    if (!(v instanceof StringValue)) throw new RuntimeException("Rat: not a numeral: " + v);
    final String s = ((StringValue) v).val.toString();
    R r = CACHE.get(s);
    if (r != null) return r;
    final int i = s.indexOf('/');
    try {
      r = i < 0 ? new R(new BigInteger(s), BigInteger.ONE)
                : new R(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    } catch (NumberFormatException e) { throw new RuntimeException("Rat: not a numeral: " + s); }
    if (CACHE.size() < 1000000) CACHE.put(s, r);
    return r;
  }
  private static Value w(final R r) {
    final String s = r.d.equals(BigInteger.ONE) ? r.n.toString() : r.n + "/" + r.d;
    if (CACHE.size() < 1000000) CACHE.putIfAbsent(s, r);
    return new StringValue(s);
  }
  private static R add(R a, R b) {
    if (a.d.equals(b.d)) return new R(a.n.add(b.n), a.d);
    return new R(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  private static R sub(R a, R b) { return add(a, new R(b.n.negate(), b.d)); }
  private static R mul(R a, R b) { return new R(a.n.multiply(b.n), a.d.multiply(b.d)); }
  private static int cmp(R a, R b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }

  public static Value Q(final Value n, final Value d) {
    return w(new R(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val)));
  }
  public static Value Num(final Value r) { return IntValue.gen(p(r).n.intValueExact()); }
  public static Value Den(final Value r) { return IntValue.gen(p(r).d.intValueExact()); }
  public static Value RAdd(final Value a, final Value b) { return w(add(p(a), p(b))); }
  public static Value RSub(final Value a, final Value b) { return w(sub(p(a), p(b))); }
  public static Value RMul(final Value a, final Value b) { return w(mul(p(a), p(b))); }
  public static Value RDiv(final Value a, final Value b) {
    final R x = p(a), y = p(b);
    return w(new R(x.n.multiply(y.d), x.d.multiply(y.n)));
  }
  public static Value RLe(final Value a, final Value b) { return cmp(p(a), p(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLt(final Value a, final Value b) { return cmp(p(a), p(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RPow(final Value a, final Value e) {
    final R x = p(a), y = p(e);
    if (y.d.equals(BigInteger.ONE)) {
      final int k = y.n.intValueExact();
      if (k >= 0) return w(new R(x.n.pow(k), x.d.pow(k)));
      return w(new R(x.d.pow(-k), x.n.pow(-k)));
    }
    final double b = new BigDecimal(x.n).divide(new BigDecimal(x.d), MathContext.DECIMAL64).doubleValue();
    final double q = new BigDecimal(y.n).divide(new BigDecimal(y.d), MathContext.DECIMAL64).doubleValue();
    final BigDecimal r = new BigDecimal(Math.pow(b, q)).round(new MathContext(15));
    return w(new R(r.unscaledValue().multiply(r.scale() < 0 ? BigInteger.TEN.pow(-r.scale()) : BigInteger.ONE),
                   r.scale() > 0 ? BigInteger.TEN.pow(r.scale()) : BigInteger.ONE));
  }
  public static Value Near(final Value a, final Value b, final Value tol) {
    final R d = sub(p(a), p(b));
    return cmp(new R(d.n.abs(), d.d), p(tol)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value NearInt(final Value a, final Value tol) {
    final R x = p(a);
    final BigInteger f = x.n.mod(x.d); // distance to floor, over d
    final R lo = new R(f, x.d), hi = new R(x.d.subtract(f), x.d);
    return cmp(lo, p(tol)) <= 0 || cmp(hi, p(tol)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  private static Value[] elems(final Value s) {
    final Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  public static Value RSum(final Value s) {
    R r = new R(BigInteger.ZERO, BigInteger.ONE);
    for (final Value v : elems(s)) r = add(r, p(v));
    return w(r);
  }
  public static Value RDot(final Value s, final Value q) {
    R r = new R(BigInteger.ZERO, BigInteger.ONE);
    final Value[] a = elems(s), b = elems(q);
    if (a.length != b.length) throw new RuntimeException("Rat: RDot of unequal lengths");
    for (int i = 0; i < a.length; i++) r = add(r, mul(p(a[i]), p(b[i])));
    return w(r);
  }
  public static Value RMax(final Value a, final Value b) { return cmp(p(a), p(b)) <= 0 ? w(p(b)) : w(p(a)); }
  public static Value RMin(final Value a, final Value b) { return cmp(p(a), p(b)) <= 0 ? w(p(a)) : w(p(b)); }
  public static Value RShow(final Value a) {
    final R x = p(a);
    return new StringValue(new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(9)).toString());
  }
}
