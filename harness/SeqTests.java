import java.lang.reflect.Array;
import java.util.*;

/** deques, vectors, array helpers, capacity arithmetic */
final class SeqTests {
    static void add(List<T> out) {
        for (R.Ty t : R.TY.values()) {
            out.add(new DequeT(t)); out.add(new VectorT(t)); out.add(new ArrayT(t));
        }
        out.add(new NumT());
    }

    static final class DequeT extends T {
        final R.Ty t;
        DequeT(R.Ty t) { super(t + "Deque", "Q01", "G01"); this.t = t; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("queue." + t + "Deque");
            if (r.nextInt(20) == 0) for (int bad : new int[] {0, -1, Integer.MIN_VALUE}) R.expect("IllegalArgumentException", "new " + c.getSimpleName() + "(" + bad + ")", () -> R.neu(c, bad));
            final int cap = 1 + small(r, 20);
            l.op("new " + t + "Deque(" + cap + ")");
            final Object d = R.neu(c, cap);
            final List<Object> m = new ArrayList<>();
            final int bias = r.nextInt(4), ends = r.nextInt(5);
            for (int i = 0; i < size; i++) {
                int op = r.nextInt(10);
                if (op < 6) {
                    final boolean add = r.nextInt(8) < 3 + bias;
                    final boolean first = ends == 0 ? true : ends == 1 ? false : r.nextBoolean();
                    if (add) {
                        final Object v = t.rnd(r, 24);
                        l.op((first ? "addFirst " : "addLast ") + R.str(v));
                        R.call(d, first ? "addFirst" : "addLast", v);
                        if (first) m.add(0, v); else m.add(v);
                    } else {
                        final boolean f2 = ends == 0 ? r.nextInt(6) == 0 : ends == 1 ? r.nextInt(6) != 0 : r.nextBoolean();
                        final String n = f2 ? "removeFirst" : "removeLast";
                        l.op(n);
                        if (m.isEmpty()) R.expect("NoSuchElementException", n, () -> R.call(d, n));
                        else {
                            final Object e = m.remove(f2 ? 0 : m.size() - 1);
                            R.eq(e, R.call(d, n), n);
                            if (t.ref && l.wants("G01") && e != null && m.stream().noneMatch(x -> x == e)) R.yes(!R.reaches(d, e), "removed " + R.str(e) + " is still referenced");
                        }
                    }
                } else if (op == 6) {
                    for (boolean f : new boolean[] {true, false}) {
                        final String n = f ? "peekFirst" : "peekLast";
                        if (m.isEmpty()) R.expect("NoSuchElementException", n, () -> R.call(d, n));
                        else R.eq(m.get(f ? 0 : m.size() - 1), R.call(d, n), n);
                    }
                } else if (op == 9 && r.nextInt(12) == 0) {
                    l.op("clear");
                    R.call(d, "clear");
                    if (t.ref && l.wants("G01")) for (Object x : m) R.yes(x == null || !R.reaches(d, x), "cleared value is still referenced");
                    m.clear();
                } else if (op == 7) all(d, m);
                R.eq(m.size(), R.call(d, "size"), "size"); R.eq(m.isEmpty(), R.call(d, "isEmpty"), "isEmpty");
            }
            all(d, m);
        }
        void all(Object d, List<Object> m) {
            final List<Object> g = new ArrayList<>();
            R.call(d, "forEach", R.fn(R.cls("functional." + t + "Consumer"), a -> { g.add(a[0]); return null; }));
            R.eq(m, g, "forEach");
        }
    }

    static final class VectorT extends T {
        final R.Ty t;
        VectorT(R.Ty t) { super(t + "Vector", "V01", "G01"); this.t = t; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("vector." + t + "Vector");
            final int cap = 1 + small(r, 20);
            l.op("new " + t + "Vector(" + cap + ")");
            final Object d = R.neu(c, cap);
            final List<Object> m = new ArrayList<>();
            for (int i = 0; i < size; i++) {
                final int op = r.nextInt(12);
                if (op < 8) { final Object v = t.rnd(r, 24); l.op("append " + R.str(v)); R.call(d, "append", v); m.add(v); }
                else if (op == 8) { final int n = r.nextInt(3) == 0 ? m.size() + r.nextInt(40) : r.nextInt(40); l.op("ensureSize " + n); R.call(d, "ensureSize", n); }
                else if (op == 9 && r.nextInt(6) == 0) {
                    l.op("clear"); R.call(d, "clear");
                    if (t.ref && l.wants("G01")) for (Object x : m) R.yes(x == null || !R.reaches(d, x), "cleared value " + R.str(x) + " is still referenced");
                    m.clear();
                } else if (!m.isEmpty()) { final int k = r.nextInt(m.size()); R.eq(m.get(k), R.call(d, "valueAt", k), "valueAt " + k); }
                R.eq(m.size(), R.call(d, "size"), "size"); R.eq(m.isEmpty(), R.call(d, "isEmpty"), "isEmpty");
            }
            for (int k = 0; k < m.size(); k++) R.eq(m.get(k), R.call(d, "valueAt", k), "valueAt " + k);
            final List<Object> g = new ArrayList<>();
            R.call(d, "forEach", R.fn(R.cls("functional." + t + "Consumer"), a -> { g.add(a[0]); return null; }));
            R.eq(m, g, "forEach");
        }
    }

    static Object rndArr(R.Ty t, Random r, int n) {
        final Object a = t.arr(n);
        for (int i = 0; i < n; i++) Array.set(a, i, t.rnd(r, 24));
        return a;
    }
    static Object copy(R.Ty t, Object a) {
        final Object b = t.arr(Array.getLength(a)); System.arraycopy(a, 0, b, 0, Array.getLength(a)); return b;
    }
    static void same(Object a, Object b, String w) {
        R.eq(Array.getLength(a), Array.getLength(b), w + " length");
        for (int i = 0; i < Array.getLength(a); i++) R.eq(Array.get(a, i), Array.get(b, i), w + "[" + i + "]");
    }

    static final class ArrayT extends T {
        final R.Ty t;
        ArrayT(R.Ty t) { super(t + "Array", "A01"); this.t = t; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("arrays." + t + "Array");
            for (int i = 0; i < size; i++) {
                final int n = r.nextInt(9); final Object a = rndArr(t, r, n), a0 = copy(t, a); final Object v = t.rnd(r, 24);
                final int k = r.nextInt(20);
                switch (r.nextInt(10)) {
                    case 0: { l.op("create " + k + " " + R.str(v)); Object b = R.stat(c, "create", k, v); suffix(b, null, 0, isZero(v) ? t.def() : v, k, "create"); break; }
                    case 1: { l.op("create " + k); suffix(R.stat(c, "create", k), null, 0, t.def(), k, "create"); break; }
                    case 2: { l.op("resize " + R.str(a) + " " + k); suffix(R.stat(c, "resize", a, k), a0, Math.min(n, k), t.def(), k, "resize"); break; }
                    case 3: {
                        final int f = r.nextInt(n + 1), len = r.nextInt(n - f + 1);
                        l.op("fill " + R.str(a) + " " + R.str(v) + " from " + f + " length " + len);
                        R.stat(c, "fill", a, v, f, len);
                        for (int j = 0; j < n; j++) R.eq(j >= f && j < f + len ? v : Array.get(a0, j), Array.get(a, j), "fill [" + j + "]");
                        continue;
                    }
                    case 4: { l.op("fill " + R.str(a)); R.stat(c, "fill", a, v); for (int j = 0; j < n; j++) R.eq(v, Array.get(a, j), "fill [" + j + "]"); continue; }
                    case 5: { final int q = r.nextInt(3) == 0 ? k : n + k; if (q < n) break; l.op("copyOf " + R.str(a) + " " + q + " " + R.str(v)); suffix(R.stat(c, "copyOf", a, q, v), a0, Math.min(n, q), v, q, "copyOf"); break; }
                    case 6: { l.op("copyOf " + R.str(a) + " " + k); suffix(R.stat(c, "copyOf", a, k), a0, Math.min(n, k), t.def(), k, "copyOf"); break; }
                    case 7: ens(c, a, a0, k, t.def(), l, "ensureSize", false, r); break;
                    case 8: ens(c, a, a0, k, v, l, "ensureSize", true, r); break;
                    default: if (r.nextBoolean()) ens(c, a, a0, k, v, l, "ensureEntry", true, r); else ens(c, a, a0, k, t.def(), l, "ensureEntry", false, r);
                }
                same(a0, a, "source array");
            }
        }
        /** create compares with ==, so -0.0 counts as the default */
        static boolean isZero(Object v) { return v instanceof Float && (Float) v == 0f || v instanceof Double && (Double) v == 0d; }
        void ens(Class<?> c, Object a, Object a0, int k, Object v, Log l, String n, boolean init, Random r) {
            l.op(n + " " + R.str(a) + " " + k + (init ? " " + R.str(v) : ""));
            final Object b = init ? R.stat(c, n, a, k, v) : R.stat(c, n, a, k);
            final int need = n.equals("ensureEntry") ? k + 1 : k, len = Array.getLength(a0);
            if (need <= len) R.yes(b == a, n + " did not return the same array");
            else { R.yes(Array.getLength(b) >= need, n + " result too short: " + Array.getLength(b)); suffix(b, a0, len, v, Array.getLength(b), n); }
        }
        void suffix(Object b, Object src, int common, Object v, int len, String w) {
            R.eq(len, Array.getLength(b), w + " length");
            for (int j = 0; j < len; j++) R.eq(j < common ? Array.get(src, j) : v, Array.get(b, j), w + " [" + j + "]");
        }
    }

    static final class NumT extends T {
        NumT() { super("CapacityArithmetic", "N01"); }
        void run(Random r, int size, Log l) {
            final Class<?> nu = R.cls("NumUtils"), cc = R.cls("CapacityCalculator");
            for (int i = 0; i < size; i++) {
                int v = 1 + (r.nextInt() >>> 1) % (1 << 30);
                if (r.nextBoolean()) v = Math.max(1, Math.min(1 << 30, (1 << r.nextInt(31)) + r.nextInt(3) - 1));
                if (r.nextInt(4) == 0) v = Math.max(1, v >>> r.nextInt(31));
                l.op("nextPowerOf2 " + v);
                final int p = (Integer) R.stat(nu, "nextPowerOf2", v);
                R.yes(p > 0 && Integer.bitCount(p) == 1 && p >= v && (p == 1 || p / 2 < v), "nextPowerOf2(" + v + ") = " + p);
                final int cap = 1 << r.nextInt(31), max = 1 << 29;
                final int th = r.nextBoolean() ? cap : r.nextInt(3) == 0 ? (int) (cap * 0.7) : max - r.nextInt(2);
                l.op("calculateNewCapacity " + cap + " " + th);
                if (cap > max || (cap == max && th == max)) R.expect("ResizeException", "calculateNewCapacity", () -> R.stat(cc, "calculateNewCapacity", new Object(), cap, th));
                else R.eq(cap == max ? cap : 2 * cap, R.stat(cc, "calculateNewCapacity", new Object(), cap, th), "calculateNewCapacity(" + cap + "," + th + ")");
            }
        }
    }
}
