import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Replaces the operators of specs/Rat.tla (exact rationals as strings). */
public class Rat {
  private static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d;
    }
  }
  private static Q get(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    String s = ((StringValue) v).val.toString();
    return parse(s);
  }
  private static Q parse(String s) {
    int i = s.indexOf('/');
    if (i >= 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    if (s.indexOf('.') < 0 && s.indexOf('e') < 0 && s.indexOf('E') < 0)
      return new Q(new BigInteger(s), BigInteger.ONE);
    BigDecimal b = new BigDecimal(s);
    if (b.scale() >= 0) return new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    return new Q(b.unscaledValue().multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
  }
  private static Value put(Q q) {
    return new StringValue(q.d.equals(BigInteger.ONE) ? q.n.toString() : q.n + "/" + q.d);
  }
  public static Value RInt(Value n) { return put(get(n)); }
  public static Value RFrac(Value n, Value d) {
    return put(new Q(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val)));
  }
  public static Value RDec(Value s) { return put(get(s)); }
  public static Value RAdd(Value a, Value b) {
    Q x = get(a), y = get(b);
    return put(new Q(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }
  public static Value RSub(Value a, Value b) {
    Q x = get(a), y = get(b);
    return put(new Q(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }
  public static Value RMul(Value a, Value b) {
    Q x = get(a), y = get(b);
    return put(new Q(x.n.multiply(y.n), x.d.multiply(y.d)));
  }
  public static Value RDiv(Value a, Value b) {
    Q x = get(a), y = get(b);
    return put(new Q(x.n.multiply(y.d), x.d.multiply(y.n)));
  }
  private static Q[] seq(Value q) {
    Value[] e = ((tlc2.value.impl.TupleValue) q.toTuple()).elems;
    Q[] r = new Q[e.length];
    for (int i = 0; i < e.length; i++) r[i] = get(e[i]);
    return r;
  }
  public static Value RSum(Value q) {
    BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
    for (Q x : seq(q)) {
      if (x.d.equals(d)) { n = n.add(x.n); continue; }
      BigInteger g = d.gcd(x.d);
      n = n.multiply(x.d.divide(g)).add(x.n.multiply(d.divide(g)));
      d = d.divide(g).multiply(x.d);
    }
    return put(new Q(n, d));
  }
  public static Value RProd(Value q) {
    BigInteger n = BigInteger.ONE, d = BigInteger.ONE;
    for (Q x : seq(q)) { n = n.multiply(x.n); d = d.multiply(x.d); }
    return put(new Q(n, d));
  }
  public static Value RCmp(Value a, Value b) {
    Q x = get(a), y = get(b);
    return IntValue.gen(x.n.multiply(y.d).compareTo(y.n.multiply(x.d)));
  }
  private static BigInteger floor(BigInteger n, BigInteger d) {
    BigInteger[] qr = n.divideAndRemainder(d);
    return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }
  public static Value RRound(Value a, Value k) {
    Q x = get(a);
    BigInteger t = BigInteger.TEN.pow(((IntValue) k).val);
    BigInteger two = BigInteger.valueOf(2);
    return put(new Q(floor(x.n.multiply(t).multiply(two).add(x.d), x.d.multiply(two)), t));
  }
  public static Value RFloor(Value a) { Q x = get(a); return put(new Q(floor(x.n, x.d), BigInteger.ONE)); }
  public static Value RFloorInt(Value a) { Q x = get(a); return IntValue.gen(floor(x.n, x.d).intValueExact()); }
  public static Value RTruncInt(Value a) { Q x = get(a); return IntValue.gen(x.n.divide(x.d).intValueExact()); }
  public static Value RIsInt(Value a) { return get(a).d.equals(BigInteger.ONE) ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
