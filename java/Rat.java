import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

/** TLC module override for Rat.tla: rationals as strings "n" or "n/d", unlimited precision. */
public class Rat {
  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }
  private static final int MAXCACHE = 400000;
  private static final ConcurrentHashMap<UniqueString, Q> CACHE = new ConcurrentHashMap<>();

  static Q norm(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return new Q(n, d);
  }
  static Q of(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    UniqueString u = ((StringValue) v).val;
    Q q = CACHE.get(u);
    if (q != null) return q;
    String s = u.toString();
    int k = s.indexOf('/');
    q = k < 0 ? new Q(new BigInteger(s), BigInteger.ONE)
              : new Q(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    put(u, q);
    return q;
  }
  static void put(UniqueString u, Q q) {
    if (CACHE.size() > MAXCACHE) CACHE.clear();
    CACHE.put(u, q);
  }
  static Value mk(Q q) {
    String s = q.d.equals(BigInteger.ONE) ? q.n.toString() : q.n.toString() + "/" + q.d.toString();
    UniqueString u = UniqueString.uniqueStringOf(s);
    put(u, q);
    return new StringValue(u);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }

  public static Value RFrac(Value n, Value d) { Q a = of(n), b = of(d); return mk(norm(a.n.multiply(b.d), a.d.multiply(b.n))); }
  public static Value RInt(Value n) { return mk(of(n)); }
  public static Value RAdd(Value x, Value y) { Q a = of(x), b = of(y); return mk(norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d))); }
  public static Value RSub(Value x, Value y) { Q a = of(x), b = of(y); return mk(norm(a.n.multiply(b.d).subtract(b.n.multiply(a.d)), a.d.multiply(b.d))); }
  public static Value RMul(Value x, Value y) { Q a = of(x), b = of(y); return mk(norm(a.n.multiply(b.n), a.d.multiply(b.d))); }
  public static Value RDiv(Value x, Value y) { Q a = of(x), b = of(y); return mk(norm(a.n.multiply(b.d), a.d.multiply(b.n))); }
  public static Value RNeg(Value x) { Q a = of(x); return mk(new Q(a.n.negate(), a.d)); }
  public static Value RAbs(Value x) { Q a = of(x); return mk(new Q(a.n.abs(), a.d)); }
  public static Value RLt(Value x, Value y) { return bool(cmp(of(x), of(y)) < 0); }
  public static Value RLe(Value x, Value y) { return bool(cmp(of(x), of(y)) <= 0); }
  public static Value REq(Value x, Value y) { return bool(cmp(of(x), of(y)) == 0); }
  public static Value RSgn(Value x) { return IntValue.gen(of(x).n.signum()); }
  static BigInteger floor(BigInteger n, BigInteger d) {
    BigInteger[] qr = n.divideAndRemainder(d);
    return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }
  public static Value RFloor(Value x) { Q a = of(x); return IntValue.gen(floor(a.n, a.d).intValueExact()); }
  public static Value RRound(Value x, Value n) {
    Q a = of(x), m = of(n);
    BigInteger k = m.n.divide(m.d), two = BigInteger.TWO;
    return mk(norm(floor(two.multiply(a.n).multiply(k).add(a.d), two.multiply(a.d)), k));
  }
  static String str(Value v) { return v instanceof StringValue ? ((StringValue) v).val.toString() : v.toString(); }
  static Q parse(String s) {
    s = s.trim();
    int k = s.indexOf('/');
    if (k >= 0) { Q a = parse(s.substring(0, k)), b = parse(s.substring(k + 1)); return norm(a.n.multiply(b.d), a.d.multiply(b.n)); }
    BigDecimal d = (s.indexOf('x') >= 0 || s.indexOf('X') >= 0) ? new BigDecimal(Double.parseDouble(s)) : new BigDecimal(s);
    return d.scale() > 0 ? norm(d.unscaledValue(), BigInteger.TEN.pow(d.scale())) : new Q(d.toBigIntegerExact(), BigInteger.ONE);
  }
  public static Value RParse(Value v) { return v instanceof IntValue ? mk(of(v)) : mk(parse(str(v))); }
  public static Value RIsNum(Value v) {
    if (v instanceof IntValue) return BoolValue.ValTrue;
    if (!(v instanceof StringValue)) return BoolValue.ValFalse;
    try { parse(str(v)); return BoolValue.ValTrue; } catch (RuntimeException e) { return BoolValue.ValFalse; }
  }
  public static Value RText(Value v) { Q q = of(v); return mk(q); }
  static BigDecimal dec(Q q, int p) { return new BigDecimal(q.n).divide(new BigDecimal(q.d), new MathContext(p)); }
  public static Value RShow(Value v) { return new StringValue(dec(of(v), 12).toString()); }
  /** Forces every lazily represented part of a value. */
  public static Value Strict(Value v) {
    if (v instanceof LazyValue || v instanceof FcnLambdaValue) {
      Value t = v.toTuple();
      if (t == null) t = v.toFcnRcd();
      if (t != null) v = t;
    }
    if (v instanceof TupleValue) { Value[] e = ((TupleValue) v).elems; for (int i = 0; i < e.length; i++) e[i] = Strict(e[i]); }
    else if (v instanceof RecordValue) { Value[] e = ((RecordValue) v).values; for (int i = 0; i < e.length; i++) e[i] = Strict(e[i]); }
    else if (v instanceof FcnRcdValue) { Value[] e = ((FcnRcdValue) v).values; for (int i = 0; i < e.length; i++) e[i] = Strict(e[i]); }
    return v;
  }
  public static Value RDec(Value v) { Q q = of(v); return new StringValue(q.n.signum() == 0 ? "0" : dec(q, 30).toString()); }
  public static Value RSqrt(Value v) {
    Q q = of(v);
    if (q.n.signum() < 0) throw new RuntimeException("Rat: sqrt of a negative number");
    if (q.n.signum() == 0) return mk(q);
    BigDecimal d = dec(q, 60).sqrt(new MathContext(40));
    return mk(parse(d.toString()));
  }
  // sum of (-1)^k x^(2k) / (2k+first)!  for x^2 = s
  static Q series(Q s2, int first) {
    MathContext mc = new MathContext(90);
    BigDecimal s = dec(s2, 90), term = BigDecimal.ONE, sum;
    for (int i = 2; i <= first; i++) term = term.divide(BigDecimal.valueOf(i), mc);
    sum = term;
    BigDecimal eps = new BigDecimal("1e-60");
    for (int k = 1; k < 2000; k++) {
      term = term.multiply(s, mc).negate().divide(BigDecimal.valueOf((long) (2 * k + first) * (2 * k + first - 1)), mc);
      sum = sum.add(term, mc);
      if (term.abs().compareTo(eps) < 0 && (double) (2 * k) * (2 * k) > s.doubleValue()) break;
    }
    return parse(sum.setScale(45, java.math.RoundingMode.HALF_EVEN).toString());
  }
  public static Value RAtan(Value v) {
    MathContext mc = new MathContext(90);
    BigDecimal x = dec(of(v), 90);
    int halvings = 0;
    while (x.abs().compareTo(new BigDecimal("0.01")) > 0) {
      x = x.divide(BigDecimal.ONE.add(BigDecimal.ONE.add(x.multiply(x, mc), mc).sqrt(mc), mc), mc);
      halvings++;
    }
    BigDecimal s = x.multiply(x, mc), pow = x, sum = x;
    for (int k = 1; k < 40; k++) {
      pow = pow.multiply(s, mc).negate();
      sum = sum.add(pow.divide(BigDecimal.valueOf(2 * k + 1), mc), mc);
    }
    return mk(parse(sum.multiply(BigDecimal.valueOf(2).pow(halvings), mc).setScale(45, java.math.RoundingMode.HALF_EVEN).toString()));
  }
  public static Value RCosS(Value s) { return mk(series(of(s), 0)); }
  public static Value RSincS(Value s) { return mk(series(of(s), 1)); }
  public static Value RVersS(Value s) { return mk(series(of(s), 2)); }
  static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }
  public static Value RDot(Value x, Value y) {
    Value[] a = elems(x), b = elems(y);
    if (a.length != b.length) throw new RuntimeException("Rat: dot product of unequal lengths");
    BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
    for (int i = 0; i < a.length; ++i) {
      Q p = of(a[i]), q = of(b[i]);
      BigInteger pn = p.n.multiply(q.n);
      if (pn.signum() == 0) continue;
      BigInteger pd = p.d.multiply(q.d);
      if (pd.equals(d)) n = n.add(pn);
      else { n = n.multiply(pd).add(pn.multiply(d)); d = d.multiply(pd); if (d.bitLength() > 600) { Q r = norm(n, d); n = r.n; d = r.d; } }
    }
    return mk(norm(n, d));
  }
  public static Value RSubMul(Value a, Value b, Value c) {
    Q x = of(a), y = of(b), z = of(c);
    if (y.n.signum() == 0 || z.n.signum() == 0) return a instanceof StringValue ? a : mk(x);
    BigInteger pn = y.n.multiply(z.n), pd = y.d.multiply(z.d);
    return mk(norm(x.n.multiply(pd).subtract(pn.multiply(x.d)), x.d.multiply(pd)));
  }
}
