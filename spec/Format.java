import tlc2.value.impl.*;
import java.math.*;
import java.util.*;

/** TLC overrides for Format.tla. */
public class Format {
  static byte[] bytes(Value q) {
    Value[] e = ((TupleValue) q.toTuple()).elems;
    byte[] r = new byte[e.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) Word64.v(e[i]);
    return r;
  }
  static Value seq(byte[] b) {
    Value[] r = new Value[b.length];
    for (int i = 0; i < r.length; i++) r[i] = Word64.mk(b[i] & 255);
    return new TupleValue(r);
  }
  static String latin(byte[] b) { return new String(b, java.nio.charset.StandardCharsets.ISO_8859_1); }
  static Value seq(String s) { return seq(s.getBytes(java.nio.charset.StandardCharsets.ISO_8859_1)); }
  static final Value BAD = new StringValue("bad"), DUNNO = new StringValue("?");
  static final Value NOSEQ = new TupleValue(new Value[] {DUNNO}), NOPTS = new TupleValue(new Value[] {NOSEQ});

  public static Value Bytes(Value s) {
    String t = ((StringValue) s).val.toString();
    ArrayList<Value> r = new ArrayList<>();
    for (int i = 0; i < t.length(); i++) {
      char c = t.charAt(i);
      if (c == '\\' && i + 3 < t.length() + 0 && t.charAt(i + 1) == 'x') {
        r.add(Word64.mk(Integer.parseInt(t.substring(i + 2, i + 4), 16)));
        i += 3;
      } else r.add(Word64.mk(c & 255));
    }
    return new TupleValue(r.toArray(new Value[0]));
  }
  public static Value UDigits(Value w, Value base) {
    long n = Word64.v(w);
    long b = Word64.v(base);
    BigInteger x = BigInteger.valueOf(n).abs();
    LinkedList<Value> r = new LinkedList<>();
    BigInteger bb = BigInteger.valueOf(b);
    do {
      BigInteger[] qr = x.divideAndRemainder(bb);
      r.addFirst(Word64.mk(qr[1].longValue()));
      x = qr[0];
    } while (x.signum() > 0);
    return new TupleValue(r.toArray(new Value[0]));
  }
  static String pad(String s, int width, boolean left, boolean zero, boolean numeric) {
    if (s.length() >= width) return s;
    StringBuilder sb = new StringBuilder();
    int n = width - s.length();
    if (left) { sb.append(s); for (int i = 0; i < n; i++) sb.append(' '); return sb.toString(); }
    if (zero) {
      int k = 0;
      if (numeric && s.length() > 0 && (s.charAt(0) == '-' || s.charAt(0) == '+' || s.charAt(0) == ' ')) k = 1;
      sb.append(s, 0, k);
      for (int i = 0; i < n; i++) sb.append('0');
      sb.append(s.substring(k));
      return sb.toString();
    }
    for (int i = 0; i < n; i++) sb.append(' ');
    return sb.append(s).toString();
  }
  public static Value Printf(Value q, Value kind, Value x) {
    String f = latin(bytes(q));
    int z = f.indexOf('\0');
    if (z >= 0) f = f.substring(0, z);
    String k = ((StringValue) kind).val.toString();
    StringBuilder out = new StringBuilder();
    boolean used = false;
    for (int i = 0; i < f.length(); i++) {
      char c = f.charAt(i);
      if (c != '%') { out.append(c); continue; }
      if (++i >= f.length()) return NOSEQ;
      if (f.charAt(i) == '%') { out.append('%'); continue; }
      boolean left = false, zero = false, plus = false, space = false, alt = false;
      for (; i < f.length() && "-0+ #".indexOf(f.charAt(i)) >= 0; i++) {
        switch (f.charAt(i)) {
          case '-': left = true; break;
          case '0': zero = true; break;
          case '+': plus = true; break;
          case ' ': space = true; break;
          default: alt = true;
        }
      }
      int width = 0, prec = -1;
      while (i < f.length() && Character.isDigit(f.charAt(i))) width = Math.min(5000, width * 10 + f.charAt(i++) - '0');
      if (i < f.length() && f.charAt(i) == '.') {
        prec = 0;
        for (i++; i < f.length() && Character.isDigit(f.charAt(i)); i++) prec = Math.min(5000, prec * 10 + f.charAt(i) - '0');
      }
      int l = 0;
      while (i < f.length() && f.charAt(i) == 'l') { l++; i++; }
      if (i >= f.length() || alt || used) return NOSEQ;
      char cv = f.charAt(i);
      used = true;
      if (k.equals("int") && "diuxXoc".indexOf(cv) >= 0) {
        long v = Word64.v(x);
        if (cv == 'c') { if (l > 0 || zero || plus || prec >= 0 || (byte) v == 0) return NOSEQ; out.append(pad(String.valueOf((char) (v & 255)), width, left, false, false)); continue; }
        boolean signed = cv == 'd' || cv == 'i';
        String s, sg = "";
        if (signed) {
          if (l == 0) v = (int) v;
          BigInteger b = BigInteger.valueOf(v);
          sg = b.signum() < 0 ? "-" : plus ? "+" : space ? " " : "";
          s = b.abs().toString();
        } else {
          if (plus || space) return NOSEQ;
          if (l == 0) v = v & 0xFFFFFFFFL;
          s = cv == 'u' ? Long.toUnsignedString(v) : cv == 'o' ? Long.toOctalString(v) : Long.toHexString(v);
          if (cv == 'X') s = s.toUpperCase();
        }
        if (prec == 0 && v == 0) s = "";
        while (s.length() < prec) s = "0" + s;
        out.append(pad(sg + s, width, left, zero && prec < 0, true));
      } else if ((k.equals("double") || k.equals("float")) && "feg".indexOf(cv) >= 0 && l == 0) {
        double v = k.equals("double") ? Double.longBitsToDouble(Word64.v(x)) : (double) Float.intBitsToFloat((int) Word64.v(x));
        if (Double.isNaN(v) || Double.isInfinite(v)) return NOSEQ;
        boolean neg = Double.doubleToRawLongBits(v) < 0;
        BigDecimal b = new BigDecimal(Math.abs(v));
        int p = prec < 0 ? 6 : prec;
        String s;
        if (cv == 'f') s = b.setScale(p, RoundingMode.HALF_EVEN).toPlainString();
        else if (cv == 'e') {
          if (b.signum() == 0) { s = "0"; if (p > 0) { s += "."; for (int j = 0; j < p; j++) s += "0"; } s += "e+00"; }
          else {
            BigDecimal r = b.round(new MathContext(p + 1, RoundingMode.HALF_EVEN));
            String ds = r.unscaledValue().toString();
            int exp = r.precision() - r.scale() - 1;
            while (ds.length() < p + 1) ds += "0";
            ds = ds.substring(0, p + 1);
            s = ds.substring(0, 1) + (p > 0 ? "." + ds.substring(1) : "") + "e" + (exp < 0 ? "-" : "+") + (Math.abs(exp) < 10 ? "0" : "") + Math.abs(exp);
          }
        } else {
          if (prec >= 0 && prec != 6) return NOSEQ;
          s = Float64.g6(Math.abs(v));
        }
        out.append(pad((neg ? "-" : plus ? "+" : space ? " " : "") + s, width, left, zero, true));
      } else if (k.equals("string") && cv == 's' && l == 0) {
        if (zero) return NOSEQ;
        String s = latin(bytes(x));
        int n = s.indexOf('\0');
        if (n >= 0) s = s.substring(0, n);
        if (prec >= 0 && s.length() > prec) s = s.substring(0, prec);
        out.append(pad(s, width, left, false, false));
      } else return NOSEQ;
    }
    String r = out.toString();
    z = r.indexOf('\0');
    if (z >= 0) r = r.substring(0, z);
    if (r.length() > 1023) r = r.substring(0, 1023);
    return seq(r);
  }
  private static final java.util.regex.Pattern INT = java.util.regex.Pattern.compile("^[ \\t\\n\\x0B\\f\\r]*([+-]?\\d+)");
  private static final java.util.regex.Pattern DBL = java.util.regex.Pattern.compile("^[ \\t\\n\\x0B\\f\\r]*([+-]?(\\d+\\.?\\d*|\\.\\d+)([eE][+-]?\\d+)?)");
  private static final java.util.regex.Pattern ODD = java.util.regex.Pattern.compile("^[ \\t\\n\\x0B\\f\\r]*[+-]?([iInN]|0[xX])");
  public static Value ParseLL(Value q) {
    java.util.regex.Matcher m = INT.matcher(cstr(q));
    if (!m.find()) return BAD;
    BigInteger b = new BigInteger(m.group(1));
    return b.bitLength() > 63 ? BAD : Word64.mk(b.longValue());
  }
  static String cstr(Value q) {
    String s = latin(bytes(q));
    int z = s.indexOf('\0');
    return z >= 0 ? s.substring(0, z) : s;
  }
  public static Value ParseD(Value q) {
    String s = cstr(q);
    if (ODD.matcher(s).find()) return DUNNO;
    java.util.regex.Matcher m = DBL.matcher(s);
    if (!m.find()) return BAD;
    double d = Double.parseDouble(m.group(1));
    if (Double.isInfinite(d)) return BAD;
    if (Math.abs(d) < Double.MIN_NORMAL && !m.group(1).matches("[+-]?[0.]*([eE].*)?")) return DUNNO;
    return Float64.w(d);
  }
  public static Value FindSeq(Value q, Value p) { return IntValue.gen(latin(bytes(q)).indexOf(latin(bytes(p)))); }
  public static Value CmpSeq(Value q, Value p) { return IntValue.gen(Integer.signum(latin(bytes(q)).compareTo(latin(bytes(p))))); }
  public static Value BoxPoints(Value a, Value b, Value max) {
    Value[] x = Space.el(a), y = Space.el(b);
    int n = x.length;
    long[] lo = new long[n], hi = new long[n], cur = new long[n];
    BigInteger vol = BigInteger.ONE;
    for (int i = 0; i < n; i++) {
      lo[i] = Word64.v(x[i]); hi[i] = Word64.v(y[i]); cur[i] = lo[i];
      vol = vol.multiply(BigInteger.valueOf(hi[i]).subtract(BigInteger.valueOf(lo[i])).abs().add(BigInteger.ONE));
    }
    if (vol.compareTo(BigInteger.valueOf(((IntValue) max).val)) > 0) return NOPTS;
    ArrayList<Value> r = new ArrayList<>();
    for (;;) {
      Value[] e = new Value[n];
      for (int i = 0; i < n; i++) e[i] = Word64.mk(cur[i]);
      r.add(new TupleValue(e));
      int i = 0;
      for (; i < n; i++) {
        if (cur[i] != hi[i]) { cur[i] += lo[i] < hi[i] ? 1 : -1; break; }
        cur[i] = lo[i];
      }
      if (i == n) break;
    }
    return new TupleValue(r.toArray(new Value[0]));
  }
}
