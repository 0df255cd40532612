import tlc2.value.impl.*;
import java.math.*;

/** TLC overrides for Float64.tla (IEEE-754 arithmetic of the JVM on bit patterns). */
public class Float64 {
  static double d(Value x) { return Double.longBitsToDouble(Word64.v(x)); }
  static Value w(double x) { return Word64.mk(Double.doubleToRawLongBits(x)); }
  static float f(Value x) { return Float.intBitsToFloat((int) Word64.v(x)); }
  static Value wf(float x) { return Word64.mk(Float.floatToRawIntBits(x) & 0xFFFFFFFFL); }
  static long trunc(double x) { // x86-64 cvttsd2si
    if (Double.isNaN(x) || x >= 9223372036854775808.0 || x < -9223372036854775808.0) return Long.MIN_VALUE;
    return (long) x;
  }
  static double rnd(double x) { // C round(): half away from zero
    if (Double.isNaN(x) || Double.isInfinite(x)) return x;
    double t = Math.floor(Math.abs(x));
    if (Math.abs(x) - t >= 0.5) t += 1;
    return Math.copySign(t, x);
  }
  public static Value DOfW(Value a) { return w((double) Word64.v(a)); }
  public static Value DToW(Value a) { return Word64.mk(trunc(d(a))); }
  public static Value DRoundW(Value a) { return Word64.mk(trunc(rnd(d(a)))); }
  public static Value DAdd(Value a, Value b) { return w(d(a) + d(b)); }
  public static Value DSub(Value a, Value b) { return w(d(a) - d(b)); }
  public static Value DMul(Value a, Value b) { return w(d(a) * d(b)); }
  public static Value DDiv(Value a, Value b) { return w(d(a) / d(b)); }
  public static Value DPow(Value a, Value b) { return w(Math.pow(d(a), d(b))); }
  public static Value DSqrt(Value a) { return w(Math.sqrt(d(a))); }
  public static Value DNegate(Value a) { return w(-d(a)); }
  public static Value DAbs(Value a) { return w(Math.abs(d(a))); }
  public static Value DEq(Value a, Value b) { return Word64.b(d(a) == d(b)); }
  public static Value DLt(Value a, Value b) { return Word64.b(d(a) < d(b)); }
  public static Value DIsZero(Value a) { return Word64.b(d(a) == 0); }
  public static Value DIsInt(Value a) { double x = d(a); return Word64.b(x == (double) trunc(x)); }
  public static Value DNum(Value n, Value m) { return w((double) ((IntValue) n).val / (double) ((IntValue) m).val); }
  public static Value DShow6(Value a) { return new StringValue(g6(d(a))); }
  static String g6(double x) {
    if (Double.isNaN(x)) return (Double.doubleToRawLongBits(x) < 0) ? "-nan" : "nan";
    if (Double.isInfinite(x)) return x > 0 ? "inf" : "-inf";
    if (x == 0) return (1 / x < 0) ? "-0" : "0";
    BigDecimal r = new BigDecimal(x).round(new MathContext(6, RoundingMode.HALF_EVEN));
    int exp = r.precision() - r.scale() - 1;
    String sign = r.signum() < 0 ? "-" : "";
    r = r.abs();
    if (exp < -4 || exp >= 6) {
      String ds = r.unscaledValue().toString();
      ds = ds.replaceAll("0+$", "");
      String s = ds.substring(0, 1) + (ds.length() > 1 ? "." + ds.substring(1) : "");
      return sign + s + "e" + (exp < 0 ? "-" : "+") + (Math.abs(exp) < 10 ? "0" : "") + Math.abs(exp);
    }
    String s = r.toPlainString();
    if (s.indexOf('.') >= 0) s = s.replaceAll("0+$", "").replaceAll("\\.$", "");
    return sign + s;
  }
  static String f6(double x) {
    if (Double.isNaN(x)) return (Double.doubleToRawLongBits(x) < 0) ? "-nan" : "nan";
    if (Double.isInfinite(x)) return x > 0 ? "inf" : "-inf";
    String s = new BigDecimal(x).setScale(6, RoundingMode.HALF_EVEN).abs().toPlainString();
    return (Double.doubleToRawLongBits(x) < 0 ? "-" : "") + s;
  }
  public static Value DShowF6(Value a) { return new StringValue(f6(d(a))); }
  public static Value DFun(Value f, Value a) {
    double x = d(a), r;
    switch (((StringValue) f).val.toString()) {
      case "sin": r = StrictMath.sin(x); break;
      case "cos": r = StrictMath.cos(x); break;
      case "tan": r = StrictMath.tan(x); break;
      case "asin": r = StrictMath.asin(x); break;
      case "acos": r = StrictMath.acos(x); break;
      case "atan": r = StrictMath.atan(x); break;
      case "log": r = StrictMath.log(x); break;
      case "log10": r = StrictMath.log10(x); break;
      case "exp": r = StrictMath.exp(x); break;
      default: throw new RuntimeException("DFun");
    }
    return w(r);
  }
  public static Value FOfW(Value a) { return wf((float) Word64.v(a)); }
  public static Value FToW(Value a) {
    float x = f(a);
    if (Float.isNaN(x) || x >= 9223372036854775808.0f || x < -9223372036854775808.0f) return Word64.mk(Long.MIN_VALUE);
    return Word64.mk((long) x);
  }
  public static Value FAdd(Value a, Value b) { return wf(f(a) + f(b)); }
  public static Value FSub(Value a, Value b) { return wf(f(a) - f(b)); }
  public static Value FMul(Value a, Value b) { return wf(f(a) * f(b)); }
  public static Value FDiv(Value a, Value b) { return wf(f(a) / f(b)); }
  public static Value FSqrt(Value a) { return wf((float) Math.sqrt((double) f(a))); }
  public static Value FNegate(Value a) { return wf(-f(a)); }
  public static Value FAbs(Value a) { return wf(Math.abs(f(a))); }
  public static Value FShowF6(Value a) { return new StringValue(f6((double) f(a))); }
  static long ord(double x) { long b = Double.doubleToRawLongBits(x); return b < 0 ? Long.MIN_VALUE - b : b; }
  static int ordf(float x) { int b = Float.floatToRawIntBits(x); return b < 0 ? Integer.MIN_VALUE - b : b; }
  public static Value DNear(Value a, Value b, Value n) {
    double x = d(a), y = d(b);
    if (Double.isNaN(x) || Double.isNaN(y)) return Word64.b(Double.isNaN(x) && Double.isNaN(y));
    if (((IntValue) n).val == 0) return Word64.b(Double.doubleToRawLongBits(x) == Double.doubleToRawLongBits(y));
    BigInteger k = BigInteger.valueOf(ord(x)).subtract(BigInteger.valueOf(ord(y))).abs();
    return Word64.b(k.compareTo(BigInteger.valueOf(((IntValue) n).val)) <= 0);
  }
  public static Value FNear(Value a, Value b, Value n) {
    if (Word64.v(a) >>> 32 != 0) return Word64.b(false);
    float x = f(a), y = f(b);
    if (Float.isNaN(x) || Float.isNaN(y)) return Word64.b(Float.isNaN(x) && Float.isNaN(y));
    if (((IntValue) n).val == 0) return Word64.b(Float.floatToRawIntBits(x) == Float.floatToRawIntBits(y));
    return Word64.b(Math.abs((long) ordf(x) - (long) ordf(y)) <= ((IntValue) n).val);
  }
  public static Value FOfD(Value a) { return wf((float) d(a)); }
  public static Value DOfF(Value a) { return w((double) f(a)); }
  static final Value DUNNO = new StringValue("?");
  public static Value FxFun(Value f, Value a, Value k) {
    double x = (double) Word64.v(a) / 10000.0, r;
    switch (((StringValue) f).val.toString()) {
      case "sin": r = Math.sin((x * Math.PI) / 180.0); break;
      case "cos": r = Math.cos((x * Math.PI) / 180.0); break;
      case "tan": r = Math.tan((x * Math.PI) / 180.0); break;
      case "asin": r = (Math.asin(x) * 180.0) / Math.PI; break;
      case "acos": r = (Math.acos(x) * 180.0) / Math.PI; break;
      case "atan": r = (Math.atan(x) * 180.0) / Math.PI; break;
      default: throw new RuntimeException("FxFun");
    }
    double y = r * 10000.0;
    y += ((IntValue) k).val * Math.max(1e-7, Math.abs(y) * 1e-12);
    return Word64.mk(trunc(rnd(y)));
  }
  public static Value PowW(Value a, Value b) {
    long x = Word64.v(a), y = Word64.v(b);
    if (y == 0) return Word64.mk(1);
    if (x == 0) return Word64.mk(y < 0 ? Long.MIN_VALUE : 0);
    if (x == 1) return Word64.mk(1);
    if (x == -1) return Math.abs(y) < (1L << 53) ? Word64.mk((y & 1) == 0 ? 1 : -1) : DUNNO;
    if (y < 0) return Word64.mk(0);
    if (y > 64) return Word64.mk(Long.MIN_VALUE);
    if (Math.abs(x) >= (1L << 53)) return DUNNO;
    BigInteger r = BigInteger.valueOf(x).pow((int) y);
    if (r.bitLength() > 64) return Word64.mk(Long.MIN_VALUE);
    double e = r.doubleValue();
    if (new BigDecimal(e).compareTo(new BigDecimal(r)) != 0) return DUNNO;
    return Word64.mk(trunc(e));
  }
  public static Value SqrtW(Value a) { return Word64.mk(trunc(Math.sqrt((double) Word64.v(a)))); }
  public static Value PiW(Value a) { return Word64.mk(trunc((double) Word64.v(a) * Math.PI)); }
  public static Value HypotW(Value a, Value b) {
    BigInteger x = BigInteger.valueOf(Word64.v(a)), y = BigInteger.valueOf(Word64.v(b));
    BigInteger s = x.multiply(x).add(y.multiply(y));
    if (s.bitLength() > 52) return DUNNO;
    BigInteger r = s.sqrt(); // floor
    BigInteger h = r.multiply(r).add(r); // (r+1/2)^2 = r^2+r+1/4
    return Word64.mk(s.compareTo(h) > 0 ? r.longValue() + 1 : r.longValue());
  }
  static long half(BigInteger n, BigInteger m, boolean up) { // n/m rounded, ties away (or toward zero if !up)
    BigInteger an = n.abs(), two = BigInteger.TWO;
    BigInteger q = an.multiply(two).add(up ? m : m.subtract(BigInteger.ONE)).divide(m.multiply(two));
    return n.signum() < 0 ? -q.longValue() : q.longValue();
  }
  public static Value CDivW(Value a, Value b, Value c, Value e) {
    long M = 1L << 24;
    long p = Word64.v(a), q = Word64.v(b), r = Word64.v(c), s = Word64.v(e);
    if (r == 0 && s == 0) { Value k = Word64.mk(Long.MIN_VALUE); return new TupleValue(new Value[] {k, k, k, k}); }
    for (long z : new long[] {p, q, r, s}) if (z > M || z < -M) return new TupleValue(new Value[] {DUNNO});
    BigInteger m = BigInteger.valueOf(r * r + s * s);
    BigInteger re = BigInteger.valueOf(p * r + q * s), im = BigInteger.valueOf(q * r - p * s);
    return new TupleValue(new Value[] {Word64.mk(half(re, m, true)), Word64.mk(half(re, m, false)), Word64.mk(half(im, m, true)), Word64.mk(half(im, m, false))});
  }
}
