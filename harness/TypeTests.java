import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.*;
import java.util.*;

/** element types: codecs, packing, comparators, predicates, dates, conversion, hashing; snowflake ids */
final class TypeTests {
    static void add(List<T> out) {
        for (R.Ty t : R.TY.values()) {
            if (!t.ref) out.add(new CodecT(t));
            out.add(new CmpT(t)); out.add(new PredT(t)); out.add(new ConvT(t)); out.add(new HashEqT(t));
        }
        out.add(new PackT()); out.add(new DateT()); out.add(new FlakeT());
    }

    /** any value of the type, special ones more often */
    static Object any(R.Ty t, Random r) {
        if (r.nextInt(3) == 0) return t.rnd(r, 40);
        final long z = r.nextInt(3) == 0 ? (1L << r.nextInt(64)) - r.nextInt(3) : r.nextInt(3) == 0 ? -(1L << r.nextInt(64)) + r.nextInt(3) : r.nextInt(3) == 0 ? r.nextInt(5) - 2 : r.nextLong();
        switch (t.name) {
            case "Bool": return (z & 1) == 1;
            case "Byte": return (byte) z;
            case "Short": return (short) z;
            case "Char": return (char) z;
            case "Int": return (int) z;
            case "Long": return z;
            case "Float": return r.nextInt(4) == 0 ? new float[] {0f, -0f, Float.NaN, Float.POSITIVE_INFINITY, Float.NEGATIVE_INFINITY, Float.MIN_VALUE, -Float.MIN_VALUE, Float.MAX_VALUE}[r.nextInt(8)] : Float.intBitsToFloat((int) z);
            case "Double": return r.nextInt(4) == 0 ? new double[] {0d, -0d, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, Double.MIN_VALUE, -Double.MIN_VALUE, Double.MAX_VALUE}[r.nextInt(8)] : Double.longBitsToDouble(z);
            case "String": { if (r.nextInt(6) == 0) return null; final StringBuilder b = new StringBuilder(); for (int i = r.nextInt(4); i > 0; i--) b.append("aAbB\u00e9z".charAt(r.nextInt(6))); return b.toString(); }
            default: return r.nextInt(6) == 0 ? null : new R.G((int) z);
        }
    }

    static long bits(Object v) {
        if (v instanceof Boolean) return (Boolean) v ? 1 : 0;
        if (v instanceof Character) return (Character) v;
        if (v instanceof Float) return Float.floatToRawIntBits((Float) v);
        if (v instanceof Double) return Double.doubleToRawLongBits((Double) v);
        return ((Number) v).longValue();
    }

    static final class CodecT extends T {
        final R.Ty t;
        CodecT(R.Ty t) { super(t + "Codec", "C01"); this.t = t; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("types." + t + "Type");
            for (String[] n : new String[][] {{"writeLE", "readLE"}, {"writeBE", "readBE"}}) {
                if (R.methods(c, n[0], 3).length == 0) continue;
                final int w = Map.of("Bool", 1, "Byte", 1, "Short", 2, "Char", 2, "Int", 4, "Float", 4, "Long", 8, "Double", 8).get(t.name);
                for (int i = 0; i < 1 + size / 4; i++) {
                    final byte[] b = new byte[w + r.nextInt(12)]; r.nextBytes(b); final byte[] b0 = b.clone();
                    final int pos = r.nextInt(b.length - w + 1); final Object v = any(t, r);
                    l.op(n[0] + "(" + Arrays.toString(b) + ", " + pos + ", " + R.str(v) + ")");
                    R.eq(pos + w, R.stat(c, n[0], b, pos, v), n[0] + " returns");
                    final long z = bits(v);
                    for (int j = 0; j < b.length; j++) {
                        if (j < pos || j >= pos + w) { R.eq(b0[j], b[j], "byte " + j + " outside the value"); continue; }
                        final int sh = n[0].equals("writeLE") ? j - pos : w - 1 - (j - pos);
                        R.eq((byte) (z >> (8 * sh)), b[j], "byte " + j);
                    }
                    final Object q = R.stat(c, n[1], b, pos);
                    R.eq(bits(v), bits(q), n[1] + " of the bytes written for " + R.str(v));
                    // any bytes decode in order
                    long x = 0; for (int j = 0; j < w; j++) x |= (b0[pos + j] & 0xffL) << (8 * (n[0].equals("writeLE") ? j : w - 1 - j));
                    if (t.name.equals("Bool")) { if ((b0[pos] & 0xff) > 1) continue; } // only 0 and 1 encode booleans
                    final long y = t.name.equals("Byte") ? (byte) x : t.name.equals("Short") ? (short) x : t.name.equals("Int") ? (int) x : t.name.equals("Float") ? (int) x : x;
                    final Object d = R.stat(c, n[1], b0, pos);
                    if (d instanceof Float && Float.isNaN((Float) d) || d instanceof Double && Double.isNaN((Double) d)) continue;
                    R.eq(y, bits(d), n[1] + " of " + Arrays.toString(b0) + " at " + pos);
                }
            }
        }
    }

    static final class PackT extends T {
        PackT() { super("Pack", "C02"); }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("types.Pack");
            for (int i = 0; i < size; i++) {
                final int a = (Integer) any(R.ty("Int"), r), b = (Integer) any(R.ty("Int"), r);
                l.op("ints " + a + ", " + b); final Object p = R.stat(c, "packToLong", a, b);
                R.eq(a, R.stat(c, "unpackHiInt", p), "unpackHiInt"); R.eq(b, R.stat(c, "unpackLoInt", p), "unpackLoInt");
                final short s = (short) a, u = (short) b; l.op("shorts " + s + ", " + u);
                final Object q = R.stat(c, "packToInt", s, u); R.eq(s, R.stat(c, "unpackHiShort", q), "unpackHiShort"); R.eq(u, R.stat(c, "unpackLoShort", q), "unpackLoShort");
                final byte x = (byte) a, y = (byte) b, z = (byte) (a >> 8), w = (byte) (b >> 8); l.op("bytes " + x + ", " + y + ", " + z + ", " + w);
                final Object h = R.stat(c, "packToShort", x, y); R.eq(x, R.stat(c, "unpackHiByte", h), "unpackHiByte"); R.eq(y, R.stat(c, "unpackLoByte", h), "unpackLoByte");
                R.eq(((x & 255) << 24) | ((y & 255) << 16) | ((z & 255) << 8) | (w & 255), R.stat(c, "packToInt", x, y, z, w), "packToInt of four bytes");
            }
        }
    }

    static int sgn(int x) { return Integer.signum(x); }

    static Object abs(Object a) {
        if (a instanceof Double) return Math.abs((Double) a);
        if (a instanceof Float) return (double) Math.abs((Float) a);
        return BigInteger.valueOf(bits(a)).abs();
    }
    @SuppressWarnings("unchecked") static int asc(Object a, Object b) {
        if (a == null || b == null) return a == b ? 0 : a == null ? 1 : -1;
        return ((Comparable<Object>) a).compareTo(b);
    }

    static final class CmpT extends T {
        final R.Ty t;
        CmpT(R.Ty t) { super(t + "Cmp", "C03"); this.t = t; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("types." + t + "Type");
            final Map<String, Object> cs = new LinkedHashMap<>();
            for (Field f : c.getDeclaredFields()) if (f.getType().getSimpleName().equals("Cmp")) try { f.setAccessible(true); cs.put(f.getName(), f.get(null)); } catch (IllegalAccessException e) { throw new IllegalStateException(e); }
            if (R.methods(c, "comparatorFor", 1).length > 0)
                for (Object m : R.cls("types.CompareMethod").getEnumConstants()) {
                    try { cs.put(m.toString(), R.stat(c, "comparatorFor", m)); } catch (R.Thrown e) { continue; }
                }
            for (int i = 0; i < size; i++) {
                final Object a = any(t, r), b = r.nextInt(6) == 0 ? a : any(t, r), d = any(t, r);
                for (Map.Entry<String, Object> e : cs.entrySet()) {
                    final String n = e.getKey(); final Object f = e.getValue();
                    l.op(n + " " + R.str(a) + " " + R.str(b) + " " + R.str(d));
                    final int ab = cmp(f, a, b), ba = cmp(f, b, a), bd = cmp(f, b, d), ad = cmp(f, a, d);
                    R.eq(0, cmp(f, a, a), n + " reflexive on " + R.str(a));
                    R.eq(sgn(ab), -sgn(ba), n + " antisymmetric");
                    if (ab <= 0 && bd <= 0) R.yes(ad <= 0, n + " transitive on " + R.str(a) + ", " + R.str(b) + ", " + R.str(d));
                    if (ab == 0) R.eq(sgn(ad), sgn(bd), n + " consistent on equal keys " + R.str(a) + ", " + R.str(b));
                    final boolean desc = n.contains("Desc"), absol = n.contains("Abs"), ins = n.contains("Insens") || t.ref && n.contains("Abs");
                    int exp;
                    if (t.ref && (a == null || b == null)) { if (desc) { if (a == b) exp = 0; else continue; } else exp = asc(a, b); }
                    else if (absol && !t.ref) exp = t.name.equals("Bool") ? sgn(ab) * (desc ? -1 : 1) : asc(abs(a), abs(b));
                    else if (ins) exp = ((String) a).compareToIgnoreCase((String) b);
                    else exp = asc(a, b);
                    if (isZeroPair(a, b) || t.name.equals("Bool")) continue; // no order of booleans is promised
                    R.eq(sgn(exp) * (desc ? -1 : 1), sgn(ab), n + " of " + R.str(a) + " and " + R.str(b));
                }
                for (String[] p : new String[][] {{"Asc", "Desc"}, {"AbsAsc", "AbsDesc"}, {"Ascending", "Descending"}, {"AscendingAbsolute", "DescendingAbsolute"}, {"AscInsensitive", "DescInsensitive"}})
                    if (cs.containsKey(p[0]) && cs.containsKey(p[1])) R.eq(sgn(cmp(cs.get(p[0]), a, b)), -sgn(cmp(cs.get(p[1]), a, b)), p[1] + " is the reverse of " + p[0] + " on " + R.str(a) + ", " + R.str(b));
            }
        }
        static boolean isZeroPair(Object a, Object b) { return a instanceof Double && b instanceof Double && Math.abs((Double) a) == 0 && Math.abs((Double) b) == 0 || a instanceof Float && b instanceof Float && Math.abs((Float) a) == 0 && Math.abs((Float) b) == 0; }
        static int cmp(Object f, Object a, Object b) { return R.ci(f, "compare", a, b); }
    }

    static final class PredT extends T {
        final R.Ty t;
        PredT(R.Ty t) { super(t + "Pred", "C04"); this.t = t; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("types." + t + "Type");
            for (int i = 0; i < size; i++) {
                final R.Ty u = t.name.equals("Generic") ? R.ty("String") : t; // the generic predicates compare strings
                final Object a = any(u, r), b = r.nextInt(3) == 0 ? copy(a) : any(u, r);
                for (Object m : R.cls("types.PredicateMethod").getEnumConstants()) {
                    final Object p;
                    try { p = R.stat(c, "predicateFor", m); } catch (R.Thrown e) { R.yes(t.name.equals("Bool") || t.name.equals("Generic"), "predicateFor(" + m + ") threw " + e.t); continue; }
                    final boolean ordered = m.toString().contains("L") || m.toString().contains("G");
                    if (ordered && (t.name.equals("Bool") || t.name.equals("Generic"))) continue;
                    l.op(m + " " + R.str(a) + " " + R.str(b));
                    R.eq(rel(m.toString(), a, b), R.call(p, "test", a, b), m + " of " + R.str(a) + " and " + R.str(b));
                }
                if (R.methods(c, "enableBits", 2).length > 0 && a instanceof Number) {
                    final long x = bits(a), y = bits(b); l.op("bits " + a + " " + b);
                    R.eq(narrow(t, x | y), bits(R.stat(c, "enableBits", a, b)), "enableBits(" + a + ", " + b + ")"); R.eq(narrow(t, x & ~y), bits(R.stat(c, "disableBits", a, b)), "disableBits(" + a + ", " + b + ")");
                }
            }
        }
        static long narrow(R.Ty t, long x) { switch (t.name) { case "Byte": return (byte) x; case "Short": return (short) x; case "Int": return (int) x; default: return x; } }
        static Object copy(Object a) { return a instanceof String ? new String((String) a) : a; }
        static boolean rel(String m, Object a, Object b) {
            if (a instanceof Double || a instanceof Float) {
                final double x = ((Number) a).doubleValue(), y = ((Number) b).doubleValue();
                switch (m) { case "EQ": return x == y; case "NEQ": return x != y; case "LT": return x < y; case "LTE": return x <= y; case "GT": return x > y; default: return x >= y; }
            }
            switch (m) { case "EQ": return Objects.equals(a, b); case "NEQ": return !Objects.equals(a, b); case "LT": return asc(a, b) < 0; case "LTE": return asc(a, b) <= 0; case "GT": return asc(a, b) > 0; default: return asc(a, b) >= 0; }
        }
    }

    static final class ConvT extends T {
        final R.Ty t;
        ConvT(R.Ty t) { super(t + "Conv", "C06"); this.t = t; }
        Object narrow(Number n) {
            // integers narrow from their bits, floating point numbers as a cast does
            switch (t.name) {
                case "Byte": return n.byteValue(); case "Short": return n.shortValue(); case "Int": return n.intValue(); case "Long": return n.longValue(); case "Float": return n.floatValue(); case "Double": return n.doubleValue();
                default: return null;
            }
        }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("types." + t + "Type");
            R.eq(t.def(), one(c, "convert", null), "convert(null)"); R.eq(t.def(), one(c, "unbox", null), "unbox(null)");
            for (int i = 0; i < size; i++) {
                final Object v = any(t, r);
                l.op("box " + R.str(v));
                R.eq(v, one(c, "unbox", one(c, "box", v)), "unbox of box of " + R.str(v));
                if (t.ref && !t.name.equals("String")) { R.eq(v, one(c, "convert", v), "convert"); continue; }
                if (t.name.equals("String")) { if (v != null) R.eq(v, one(c, "convert", v), "convert"); continue; }
                final Object s = any(R.ty(new String[] {"Byte", "Short", "Int", "Long", "Float", "Double"}[r.nextInt(6)]), r);
                if (!t.name.equals("Bool") && !t.name.equals("Char")) {
                    l.op("convert " + s.getClass().getSimpleName() + " " + s);
                    R.eq(narrow((Number) s), one(c, "convert", s), "convert(" + s + ")");
                    l.op("convert booleans"); R.eq(narrow(1), one(c, "convert", true), "convert(true)"); R.eq(narrow(0), one(c, "convert", false), "convert(false)");
                    final String str = v.toString(); l.op("convert \"" + str + "\""); R.eq(v, one(c, "convert", str), "convert(\"" + str + "\")");
                } else if (t.name.equals("Bool")) { R.eq(v, one(c, "convert", v), "convert(" + v + ")"); R.eq(v, one(c, "convert", v.toString()), "convert of its string"); }
                else { R.eq('t', one(c, "convert", true), "convert(true)"); R.eq('f', one(c, "convert", false), "convert(false)"); if (s instanceof Byte || s instanceof Short || s instanceof Integer) R.eq((char) ((Number) s).intValue(), one(c, "convert", s), "convert(" + s + ")"); R.eq(v, one(c, "convert", String.valueOf(v)), "convert of its string"); }
                R.expect("IllegalArgumentException", "convert(an object)", () -> one(c, "convert", new StringBuilder("x")));
                R.expect("IllegalArgumentException", "convert(a list)", () -> one(c, "convert", List.of(1)));
            }
        }
        static Object one(Class<?> c, String n, Object a) {
            for (Method m : R.methods(c, n, 1)) {
                final Class<?> p = m.getParameterTypes()[0];
                if (!R.fits(p, a)) continue;
                return R.stat(c, n, a);
            }
            throw new IllegalStateException("no " + n + " for " + a);
        }
    }

    static final class HashEqT extends T {
        final R.Ty t;
        HashEqT(R.Ty t) { super(t + "HashEq", "H08"); this.t = t; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("types." + t + "Type"); final Object eq, h;
            try { final Field a = c.getField("EqImpl"), b = c.getField("HashImpl"); eq = a.get(null); h = b.get(null); } catch (ReflectiveOperationException e) { throw new IllegalStateException(e); }
            for (int i = 0; i < size; i++) {
                final Object a = any(t, r); Object b = r.nextInt(2) == 0 ? PredT.copy(a) : any(t, r);
                if (a instanceof R.G && r.nextBoolean()) b = new R.G(((R.G) a).v);
                if (a instanceof Double && (Double) a == 0) b = -(Double) a; if (a instanceof Float && (Float) a == 0) b = -(Float) a;
                l.op(R.str(a) + " " + R.str(b));
                final boolean exp = PredT.rel("EQ", a, b);
                R.eq(exp, R.call(eq, "areEqual", a, b), "areEqual(" + R.str(a) + ", " + R.str(b) + ")");
                if (exp) R.eq(R.ci(h, "code", a) & Integer.MAX_VALUE, R.ci(h, "code", b) & Integer.MAX_VALUE, "hash of the equal keys " + R.str(a) + " and " + R.str(b));
            }
        }
    }

    static final class DateT extends T {
        DateT() { super("Dates", "C05"); }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("types.IntType");
            for (int i = 0; i < size; i++) {
                final java.time.LocalDate d = r.nextInt(8) == 0 ? java.time.LocalDate.of(new int[] {0, 1, 9999, 1900, 2000, 2024}[r.nextInt(6)], 1 + r.nextInt(12), 1) : java.time.LocalDate.ofEpochDay(-719528 + r.nextInt(3652059));
                l.op("date " + d); final int n = (Integer) R.stat(c, "fromLocalDate", d);
                R.eq(d.getYear() * 10000 + d.getMonthValue() * 100 + d.getDayOfMonth(), n, "fromLocalDate(" + d + ")"); R.eq(d, R.stat(c, "toLocalDate", n), "toLocalDate(" + n + ")");
                R.eq(n, R.stat(c, "toYYYMMDD", d.getYear(), d.getMonthValue(), d.getDayOfMonth()), "toYYYMMDD");
                final java.time.LocalTime t = r.nextInt(6) == 0 ? java.time.LocalTime.of(r.nextBoolean() ? 23 : r.nextInt(24), r.nextBoolean() ? 59 : r.nextInt(60), r.nextBoolean() ? 59 : r.nextInt(60), new int[] {0, 1, 499_999_999, 500_000_000, 999_999_999}[r.nextInt(5)]) : java.time.LocalTime.ofNanoOfDay((long) (r.nextDouble() * 86400e9)); l.op("time " + t);
                final int q = (Integer) R.stat(c, "fromLocalTime", t); R.eq(t.getHour() * 10000 + t.getMinute() * 100 + t.getSecond(), q, "fromLocalTime(" + t + ")"); R.eq(t.withNano(0), R.stat(c, "toLocalTime", q), "toLocalTime(" + q + ")");
                R.eq(q, R.stat(c, "toHHMMSS", t.getHour(), t.getMinute(), t.getSecond()), "toHHMMSS");
                if (d.getYear() >= 1600) {
                    final java.util.Date sd = r.nextBoolean() ? java.sql.Date.valueOf(d) : new GregorianCalendar(d.getYear(), d.getMonthValue() - 1, d.getDayOfMonth(), 12, 0).getTime();
                    l.op("fromSqlDate " + sd); R.eq(n, R.stat(c, "fromSqlDate", sd), "fromSqlDate(" + d + ")");
                }
            }
        }
    }

    static final class FlakeT extends T {
        FlakeT() { super("Snowflake", "I01", "I02"); }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("id.Snowflake");
            final long node = r.nextInt(4) == 0 ? new long[] {0, 1023, 1, 512}[r.nextInt(4)] : r.nextInt(1024), epoch = r.nextInt(3) == 0 ? 0 : 1676731200000L;
            for (long bad : new long[] {-1, 1024, Long.MIN_VALUE, Long.MAX_VALUE}) R.expect("IllegalArgumentException", "node id " + bad, () -> R.neu(c, bad, epoch, (java.util.function.LongSupplier) () -> 0));
            final long[] now = {epoch + (r.nextInt(3) == 0 ? r.nextInt(3) : (long) (r.nextDouble() * (1L << 40)))}; final long[] reads = {0}, top = {Long.MIN_VALUE}; final int[] stuck = {0}; final List<Long> seen = new ArrayList<>();
            final int mode = r.nextInt(4);
            final java.util.function.LongSupplier clock = () -> {
                reads[0]++;
                if (stuck[0] > 0) { stuck[0]--; }
                else if (mode == 1 && r.nextInt(3) == 0) now[0] += r.nextInt(3);
                else if (mode == 2 && now[0] < top[0] && r.nextInt(2) == 0) now[0] += r.nextInt(3);
                else if (mode == 2 && r.nextInt(9000) == 0 && r.nextInt(3) == 0) { top[0] = now[0] + 1; now[0] -= 1 + r.nextInt(2); }
                else if (mode == 2 && r.nextInt(9000) == 0) now[0] += r.nextInt(3) == 0 ? 1 + r.nextInt(100) : 1;
                else if (mode == 3) { final int k = r.nextInt(20); if (k == 0) now[0] -= 1 + r.nextInt(5); else if (k < 4) now[0] += r.nextInt(5); }
                if (now[0] < epoch) now[0] = epoch;
                seen.add(now[0]); return now[0];
            };
            l.op("new Snowflake(" + node + ", " + epoch + ", clock mode " + mode + ")");
            final Object s = R.neu(c, node, epoch, clock);
            final int n = mode == 2 || r.nextInt(6) == 0 ? 4096 * (1 + r.nextInt(2)) + r.nextInt(50) : size;
            long last = Long.MIN_VALUE, lastTime = Long.MIN_VALUE;
            for (int i = 0; i < n; i++) {
                seen.clear(); final long id;
                if (mode != 1 && mode != 3 && mode != 2 && i % 4090 > 4000) now[0] += 0;
                final long before = now[0];
                if (mode == 0) { if (i % 4000 == 3999) now[0]++; }
                try { id = (Long) R.call(s, "nextId"); }
                catch (R.Thrown t) {
                    R.yes(t.t instanceof IllegalStateException, "nextId threw " + t.t);
                    R.yes(!seen.isEmpty() && seen.get(0) < lastTime, "nextId threw although the clock read " + seen + " and the last id was issued at " + lastTime); continue;
                }
                if (i < 100 || i > n - 10) l.op("nextId() = " + id + " clock " + seen.get(0) + ".." + seen.get(seen.size() - 1));
                final long[] p = (long[]) R.call(s, "parse", id);
                if (l.wants("I01")) {
                    R.yes(id > last, "id " + id + " is not greater than " + last);
                    R.yes(p[0] >= lastTime, "id issued for " + p[0] + ", earlier than " + lastTime);
                }
                if (l.wants("I02")) {
                    R.yes(id >= 0, "negative id " + id); R.eq(3, p.length, "parse length");
                    R.eq(seen.get(seen.size() - 1), p[0], "parsed time"); R.eq(node, p[1], "parsed node");
                    R.yes(p[2] >= 0 && p[2] <= 4095, "parsed sequence " + p[2]);
                    R.eq(((p[0] - epoch) << 22) | (node << 12) | p[2], id, "id layout");
                }
                last = id; lastTime = p[0];
            }
            if (l.wants("I01") && r.nextInt(10) == 0) threads(c, node, epoch, l);
        }
        void threads(Class<?> c, long node, long epoch, Log l) {
            l.op("four threads");
            final Object s = R.neu(c, node, epoch, (java.util.function.LongSupplier) System::currentTimeMillis);
            final long[][] ids = new long[4][3000]; final Thread[] ts = new Thread[4]; final Throwable[] err = new Throwable[1];
            for (int i = 0; i < 4; i++) { final int k = i; ts[i] = new Thread(() -> { try { for (int j = 0; j < 3000; j++) ids[k][j] = (Long) R.call(s, "nextId"); } catch (Throwable t) { err[0] = t; } }); ts[i].start(); }
            for (Thread t : ts) try { t.join(); } catch (InterruptedException e) { return; }
            if (err[0] != null) throw new R.Fail("a thread failed: " + (err[0] instanceof R.Thrown ? ((R.Thrown) err[0]).t : err[0]));
            final Set<Long> all = new HashSet<>();
            for (long[] q : ids) { long p = -1; for (long x : q) { R.yes(x > p, "ids of a thread decrease: " + p + " then " + x); p = x; R.yes(all.add(x), "id " + x + " issued twice"); } }
        }
    }
}
