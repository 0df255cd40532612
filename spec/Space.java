import tlc2.value.impl.*;
import java.util.Arrays;

/** TLC overrides for Space.tla. */
public class Space {
  static Value[] el(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    return ((TupleValue) v.toTuple()).elems;
  }
  public static Value VAdd(Value a, Value b) {
    Value[] x = el(a), y = el(b), r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = Word64.mk(Word64.v(x[i]) + Word64.v(y[i]));
    return new TupleValue(r);
  }
  public static Value VSub(Value a, Value b) {
    Value[] x = el(a), y = el(b), r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = Word64.mk(Word64.v(x[i]) - Word64.v(y[i]));
    return new TupleValue(r);
  }
  public static Value VNeg(Value a) {
    Value[] x = el(a), r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = Word64.mk(-Word64.v(x[i]));
    return new TupleValue(r);
  }
  private static final Value[] NONE = new Value[0];
  private static Value[] dom(Value c) {
    if (c instanceof FcnRcdValue) {
      FcnRcdValue f = (FcnRcdValue) c;
      if (f.intv == null) { f.normalize(); return f.domain; }
    }
    return null;
  }
  private static int cmp(Value[] a, Value[] b) {
    for (int i = 0; i < a.length; i++) {
      int k = a[i].compareTo(b[i]);
      if (k != 0) return k;
    }
    return 0;
  }
  private static int find(Value[] d, Value v) {
    Value[] key = el(v);
    int lo = 0, hi = d.length - 1;
    while (lo <= hi) {
      int mid = (lo + hi) >>> 1;
      int k = cmp(el(d[mid]), key);
      if (k == 0) return mid;
      if (k < 0) lo = mid + 1; else hi = mid - 1;
    }
    return -(lo + 1);
  }
  private static final Value SP = Word64.mk(32);
  public static Value CellGet(Value c, Value v) {
    Value[] d = dom(c);
    if (d == null) return SP; // the empty function
    int i = find(d, v);
    return i < 0 ? SP : ((FcnRcdValue) c).values[i];
  }
  public static Value CellSet(Value c, Value v, Value w) {
    Value[] d = dom(c);
    Value key = new TupleValue(el(v));
    if (d == null) return new FcnRcdValue(new Value[] {key}, new Value[] {w}, true);
    Value[] r = ((FcnRcdValue) c).values;
    int i = find(d, key);
    if (i >= 0) {
      Value[] r2 = r.clone();
      r2[i] = w;
      return new FcnRcdValue(d, r2, true);
    }
    i = -(i + 1);
    Value[] d2 = new Value[d.length + 1], r2 = new Value[d.length + 1];
    System.arraycopy(d, 0, d2, 0, i); System.arraycopy(r, 0, r2, 0, i);
    d2[i] = key; r2[i] = w;
    System.arraycopy(d, i, d2, i + 1, d.length - i); System.arraycopy(r, i, r2, i + 1, d.length - i);
    return new FcnRcdValue(d2, r2, true);
  }
  public static Value CellDel(Value c, Value v) {
    Value[] d = dom(c);
    if (d == null) return c;
    int i = find(d, v);
    if (i < 0) return c;
    if (d.length == 1) return new TupleValue(NONE);
    Value[] r = ((FcnRcdValue) c).values;
    Value[] d2 = new Value[d.length - 1], r2 = new Value[d.length - 1];
    System.arraycopy(d, 0, d2, 0, i); System.arraycopy(r, 0, r2, 0, i);
    System.arraycopy(d, i + 1, d2, i, d.length - i - 1); System.arraycopy(r, i + 1, r2, i, d.length - i - 1);
    return new FcnRcdValue(d2, r2, true);
  }
  public static Value ScanMax(Value c, Value d) {
    int k = ((IntValue) d).val - 1;
    long m = Long.MIN_VALUE;
    Value[] dd = dom(c);
    if (dd != null) for (Value v : dd) m = Math.max(m, Word64.v(el(v)[k]));
    return Word64.mk(m);
  }
  public static Value ScanMin(Value c, Value d) {
    int k = ((IntValue) d).val - 1;
    long m = Long.MAX_VALUE;
    Value[] dd = dom(c);
    if (dd != null) for (Value v : dd) m = Math.min(m, Word64.v(el(v)[k]));
    return Word64.mk(m);
  }
  private static final Value MN = new StringValue("mn"), MX = new StringValue("mx");
  public static Value InHull(Value f, Value p, Value dim) {
    RecordValue r = (RecordValue) f;
    Value[] mn = el(r.apply(MN, 0)), mx = el(r.apply(MX, 0)), x = el(p);
    int n = ((IntValue) dim).val;
    for (int i = 0; i < n; i++) {
      long k = Word64.v(x[i]);
      if (k < Word64.v(mn[i]) || k > Word64.v(mx[i])) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
  private static boolean inside(long[] q, long[] mn, long[] mx, int n) {
    for (int i = 0; i < n; i++) if (q[i] < mn[i] || q[i] > mx[i]) return false;
    return true;
  }
  private static boolean leaving(long[] q, long[] d, long[] mn, long[] mx, int n) {
    for (int i = 0; i < n; i++) if ((q[i] > mx[i] && d[i] >= 0) || (q[i] < mn[i] && d[i] <= 0)) return true;
    return false;
  }
  private static long[] longs(Value v) {
    Value[] x = el(v);
    long[] r = new long[x.length];
    for (int i = 0; i < r.length; i++) r[i] = Word64.v(x[i]);
    return r;
  }
  private static Value tuple(long[] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = Word64.mk(a[i]);
    return new TupleValue(r);
  }
  private static long[] plus(long[] a, long[] b, int s) {
    long[] r = new long[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i] + s * b[i];
    return r;
  }
  public static Value StepLahey(Value f, Value p, Value d, Value dim) {
    RecordValue rec = (RecordValue) f;
    long[] mn = longs(rec.apply(MN, 0)), mx = longs(rec.apply(MX, 0)), dd = longs(d);
    int n = ((IntValue) dim).val;
    long[] q = plus(longs(p), dd, 1);
    if (inside(q, mn, mx, n) || !leaving(q, dd, mn, mx, n)) return tuple(q);
    long[] back = plus(new long[dd.length], dd, -1);
    long[] r = plus(q, dd, -1);
    while (!inside(r, mn, mx, n) && !leaving(r, back, mn, mx, n)) r = plus(r, dd, -1);
    if (!inside(r, mn, mx, n)) return tuple(q);
    for (;;) {
      long[] t = plus(r, dd, -1);
      if (!inside(t, mn, mx, n)) return tuple(r);
      r = t;
    }
  }
  public static Value StepTorus(Value p, Value d) {
    long[] q = plus(longs(p), longs(d), 1);
    if (q[0] >= 80) q[0] = 0; else if (q[0] < 0) q[0] = 79;
    if (q.length > 1) { if (q[1] >= 25) q[1] = 0; else if (q[1] < 0) q[1] = 24; }
    return tuple(q);
  }
}
