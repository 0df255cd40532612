import tlc2.value.impl.*;
import java.util.concurrent.ConcurrentHashMap;

/** TLC overrides for Word64.tla. */
public class Word64 {
  private static final int LO = -1100, HI = 1100;
  private static final StringValue[] SMALL = new StringValue[HI - LO + 1];
  private static final StringValue[] CH = new StringValue[128];
  private static final StringValue[] ESC = new StringValue[256];
  private static final StringValue[] ONE = new StringValue[128];
  static {
    for (int i = LO; i <= HI; i++) SMALL[i - LO] = new StringValue(Integer.toString(i));
    for (int i = 33; i < 127; i++) CH[i] = new StringValue(String.valueOf((char) i));
    CH[32] = new StringValue("sp");
    CH[9] = new StringValue("tab");
    for (int i = 0; i < 256; i++)
      ESC[i] = new StringValue(escs(i));
  }
  static String escs(int i) {
    return i >= 32 && i < 127 && i != '\\' ? String.valueOf((char) i) : String.format("\\x%02X", i);
  }
  static StringValue mk(long v) {
    return v >= LO && v <= HI ? SMALL[(int) v - LO] : new StringValue(Long.toString(v));
  }
  static long v(Value x) {
    final String s = ((StringValue) x).val.toString();
    final int n = s.length();
    if (n == 1) return s.charAt(0) - '0';
    if (n == 2 && s.charAt(0) != '-') return (s.charAt(0) - '0') * 10 + s.charAt(1) - '0';
    return Long.parseLong(s);
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value W(Value n) { return mk(((IntValue) n).val); }
  public static Value I(Value w) {
    long x = v(w);
    if (x != (int) x) throw new RuntimeException("Word64.I: " + x + " does not fit");
    return IntValue.gen((int) x);
  }
  public static Value Fits(Value w) { long x = v(w); return b(x == (int) x); }
  public static Value WAdd(Value a, Value c) { return mk(v(a) + v(c)); }
  public static Value WSub(Value a, Value c) { return mk(v(a) - v(c)); }
  public static Value WMul(Value a, Value c) { return mk(v(a) * v(c)); }
  public static Value WNeg(Value a) { return mk(-v(a)); }
  public static Value WDiv(Value a, Value c) { long d = v(c); return mk(d == 0 ? 0 : v(a) / d); }
  public static Value WRem(Value a, Value c) { long d = v(c); return mk(d == 0 ? 0 : v(a) % d); }
  public static Value WLt(Value a, Value c) { return b(v(a) < v(c)); }
  public static Value WLe(Value a, Value c) { return b(v(a) <= v(c)); }
  public static Value WMax(Value a, Value c) { return v(a) < v(c) ? c : a; }
  public static Value WMin(Value a, Value c) { return v(a) < v(c) ? a : c; }
  public static Value WAnd(Value a, Value c) { return mk(v(a) & v(c)); }
  public static Value WOr(Value a, Value c) { return mk(v(a) | v(c)); }
  public static Value WXor(Value a, Value c) { return mk(v(a) ^ v(c)); }
  public static Value WInv(Value a) { return mk(~v(a)); }
  public static Value WShl(Value a, Value n) { return mk(v(a) << (v(n) & 63)); }
  public static Value WShr(Value a, Value n) { return mk(v(a) >> (v(n) & 63)); }
  public static Value WByte(Value a) { return mk(v(a) & 255); }
  public static Value WChar(Value a) { return mk((byte) v(a)); }
  public static Value WInt32(Value a) { return mk((int) v(a)); }
  public static Value Ch(Value w) {
    long x = v(w);
    if (x >= 0 && x < 127 && CH[(int) x] != null) return CH[(int) x];
    return new StringValue("?" + x);
  }
  public static Value Ord(Value s) { return mk(((StringValue) s).val.toString().charAt(0)); }
  public static Value Esc(Value w) { return ESC[(int) (v(w) & 255)]; }
  public static Value Codes(Value s) {
    String t = ((StringValue) s).val.toString();
    Value[] r = new Value[t.length()];
    for (int i = 0; i < r.length; i++) r[i] = mk(t.charAt(i));
    return new TupleValue(r);
  }
  public static Value Text(Value q) {
    TupleValue t = (TupleValue) q.toTuple();
    StringBuilder sb = new StringBuilder();
    for (Value x : t.elems) sb.append(escs((int) (v(x) & 255)));
    return new StringValue(sb.toString());
  }
}
