import java.util.*;

/** hydra deques, heaps, stores, relations, companion sorts */
final class CollTests {
    static void add(List<T> out) {
        int i = 0;
        for (R.Ty t : R.TY.values()) { out.add(new HydraT(t)); out.add(new StoreT(t)); out.add(new MatrixT(t)); }
        out.add(new BiT(false)); out.add(new BiT(true));
        for (R.Ty k : R.TY.values()) {
            if (k.name.equals("Bool")) continue;
            for (int j = 0; j < R.TYPES.length; j++) {
                out.add(new HeapT(k, R.ty(R.TYPES[(i + j) % R.TYPES.length])));
                out.add(new SortT(k, R.ty(R.TYPES[(i + j) % R.TYPES.length])));
            }
            i++;
        }
    }

    static final class HydraT extends T {
        final R.Ty t;
        HydraT(R.Ty t) { super(t + "HydraDeque", "Q02", "Q03", "G01"); this.t = t; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("queue." + t + "HydraDeque");
            final int h = 1 + small(r, 12), n = 1 + small(r, 20);
            l.op("new " + name + "(" + h + ", " + n + ")");
            final Object d = R.neu(c, h, n);
            final int lists = 1 + small(r, 30);
            final TreeMap<Integer, List<Object[]>> m = new TreeMap<>();  // list -> (entry, value)
            final TreeSet<Integer> freed = new TreeSet<>(); int next = 0, total = 0;
            final int bias = r.nextInt(4);
            Object[] it = new Object[2];
            for (int i = 0; i < size; i++) {
                final int k = r.nextInt(lists); final List<Object[]> s = m.computeIfAbsent(k, x -> new ArrayList<>());
                final int op = r.nextInt(12);
                if (op < 4 + bias) {
                    final boolean first = r.nextBoolean(); final Object v = t.rnd(r, 24);
                    l.op((first ? "addFirst(" : "addLast(") + k + ", " + R.str(v) + ")");
                    final int e = (Integer) R.call(d, first ? "addFirst" : "addLast", k, v);
                    for (List<Object[]> q : m.values()) for (Object[] p : q) R.yes(!p[0].equals(e), "entry " + e + " is held by another live element");
                    if (!freed.isEmpty()) { R.yes(freed.contains(e), "entry " + e + " is not one of the freed entries " + freed); freed.remove(e); }
                    else { R.eq(next, e, "entry (nothing freed)"); next++; }
                    if (first) s.add(0, new Object[] {e, v}); else s.add(new Object[] {e, v});
                    total++;
                } else if (op < 10) {
                    final boolean first = r.nextBoolean(); final String f = first ? "removeFirst" : "removeLast";
                    l.op(f + "(" + k + ")");
                    if (s.isEmpty()) R.expect("NoSuchElementException", f + "(" + k + ")", () -> R.call(d, f, k));
                    else {
                        final Object[] p = s.remove(first ? 0 : s.size() - 1);
                        R.eq(p[1], R.call(d, f, k), f + "(" + k + ")"); freed.add((Integer) p[0]); total--;
                        if (t.ref && p[1] != null && l.wants("G01") && !"".equals(p[1])) R.yes(!R.reaches(d, p[1]), "removed " + R.str(p[1]) + " is still referenced");
                    }
                } else if (op == 10 && r.nextInt(10) == 0) {
                    l.op("clear()"); R.call(d, "clear");
                    if (t.ref && l.wants("G01")) for (List<Object[]> q : m.values()) for (Object[] p : q) R.yes(p[1] == null || "".equals(p[1]) || !R.reaches(d, p[1]), "cleared value is still referenced");
                    m.clear(); freed.clear(); next = 0; total = 0;
                } else check(d, m, k, r, it);
                R.eq(total, R.call(d, "size"), "size()"); R.eq(total == 0, R.call(d, "isEmpty"), "isEmpty()");
                R.eq(m.containsKey(k) ? m.get(k).size() : 0, R.call(d, "size", k), "size(" + k + ")");
                R.yes(next <= Math.max(next, 0), "");
            }
            for (int k = 0; k < lists + 3; k++) check(d, m, k, r, it);
            R.eq(0, R.call(d, "size", lists + 100), "size(unknown)");
        }
        void check(Object d, Map<Integer, List<Object[]>> m, int k, Random r, Object[] its) {
            final List<Object> x = new ArrayList<>();
            if (m.containsKey(k)) for (Object[] p : m.get(k)) x.add(p[1]);
            for (int dir = 0; dir < 2; dir++) {
                final String n = dir == 0 ? "iterator" : "reverseIterator";
                final Object it = its[dir] != null && r.nextBoolean() ? R.call(d, n, k, its[dir]) : R.call(d, n, k);
                its[dir] = it;
                final List<Object> g = new ArrayList<>(); int guard = 0;
                while (R.cb(it, "hasNext")) { g.add(R.call(it, "next")); if (++guard > x.size() + 5) throw new R.Fail(n + "(" + k + ") passes more than its " + x.size() + " elements"); }
                R.eq(x, g, n + "(" + k + ")");
                Collections.reverse(x);
            }
        }
    }

    static final class StoreT extends T {
        final R.Ty t;
        StoreT(R.Ty t) { super(t + "ChunkStore", "T01"); this.t = t; }
        void run(Random r, int size, Log l) {
            final int init = small(r, 60), chunk = 1 + small(r, 40);
            l.op("new " + name + "(" + init + ", " + chunk + ")");
            final Object s = R.neu(R.cls("store." + name), init, chunk);
            final Map<Integer, Object> m = new HashMap<>();
            final int span = 1 + small(r, 400) + (r.nextInt(5) == 0 ? 2000 : 0);
            final String get = "get" + t, set = "set" + t;
            for (int i = 0; i < size; i++) {
                final int k = r.nextInt(span);
                if (r.nextBoolean()) { final Object v = t.rnd(r, 24); l.op(set + "(" + k + ", " + R.str(v) + ")"); R.call(s, set, k, v); m.put(k, v); }
                R.eq(m.containsKey(k) ? m.get(k) : t.def(), R.call(s, get, k), get + "(" + k + ")");
                if (r.nextInt(16) == 0) for (int q = 0; q < span + chunk && q < 500; q++) R.eq(m.containsKey(q) ? m.get(q) : t.def(), R.call(s, get, q), get + "(" + q + ")");
            }
            for (int q = 0; q < span + chunk + init; q++) R.eq(m.containsKey(q) ? m.get(q) : t.def(), R.call(s, get, q), get + "(" + q + ")");
            R.eq(t.def(), R.call(s, get, Integer.MAX_VALUE - 1000), get + "(large)");
        }
    }

    static final class MatrixT extends T {
        final R.Ty t;
        MatrixT(R.Ty t) { super(t + "ChunkMatrixStore", "T02"); this.t = t; }
        void run(Random r, int size, Log l) {
            final int init = 1 + small(r, 60), chunk = 2 + small(r, 40), fields = 1 + small(r, 9);
            l.op("new " + name + "(" + init + ", " + chunk + ", " + fields + ")");
            final Object s = R.neu(R.cls("store." + name), init, chunk, fields);
            final Map<Integer, Object> m = new HashMap<>();
            final int span = 1 + small(r, 200) + (r.nextInt(6) == 0 ? 1000 : 0);
            final String get = "get" + t, set = "set" + t;
            for (int i = 0; i < size; i++) {
                final int k = r.nextInt(span), f = r.nextInt(fields);
                if (r.nextBoolean()) { final Object v = t.rnd(r, 24); l.op(set + "(" + k + ", " + f + ", " + R.str(v) + ")"); R.call(s, set, k, f, v); m.put(k * fields + f, v); }
                R.eq(m.getOrDefault(k * fields + f, t.def()), R.call(s, get, k, f), get + "(" + k + ", " + f + ")");
                if (r.nextInt(10) == 0) {
                    final int b = r.nextInt(3) == 0 ? -1 - r.nextInt(3) : fields + r.nextInt(3); final Object v = t.rnd(r, 24);
                    R.expect("RangeCheckException", set + "(" + k + ", " + b + ")", () -> R.call(s, set, k, b, v));
                    R.expect("RangeCheckException", get + "(" + k + ", " + b + ")", () -> R.call(s, get, k, b));
                }
            }
            for (int q = 0; q < span + chunk; q++) for (int f = 0; f < fields; f++) R.eq(m.getOrDefault(q * fields + f, t.def()), R.call(s, get, q, f), get + "(" + q + ", " + f + ")");
        }
    }

    static final class BiT extends T {
        final boolean mm;
        BiT(boolean mm) { super(mm ? "CompactManyToMany" : "CompactOneToMany", "B01", "B02"); this.mm = mm; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("bi." + name); final Object o; final boolean counts;
            if (r.nextInt(4) == 0) { l.op("new " + name + "()"); o = R.neu(c); counts = true; }
            else {
                counts = r.nextBoolean(); final int a = 1 + small(r, 12), b = 1 + small(r, 12), e = 1 + small(r, 12);
                if (mm) { l.op("new " + name + "(" + a + ", " + b + ", " + e + ", " + counts + ")"); o = R.neu(c, a, b, e, counts); }
                else { l.op("new " + name + "(" + a + ", " + e + ", " + counts + ")"); o = R.neu(c, a, e, counts); }
            }
            final boolean defCounts = counts;
            final int L = 1 + small(r, 20), Rt = 1 + small(r, 20), bias = r.nextInt(4);
            final TreeMap<Integer, int[]> m = new TreeMap<>(); final Set<Integer> reserved = new TreeSet<>(), freed = new TreeSet<>();
            for (int i = 0; i < size; i++) {
                final int a = key(r, L), b = mm || r.nextInt(8) > 0 ? key(r, Rt) : -1 - key(r, Rt); int had = find(m, a, b); final int op = r.nextInt(12);
                if (op < 3 + bias) {
                    final boolean lr = mm && r.nextBoolean(); final String w = lr ? "withRight" : "withLeft";
                    final Object held = r.nextInt(5) == 0 ? R.call(o, w, lr ? b : a) : null; if (held != null) l.op("q = " + w + "(" + (lr ? b : a) + ")");
                    l.op("put(" + a + ", " + b + ")"); final int e = R.ci(o, "put", a, b);
                    if (had >= 0) R.eq(had, e, "put of a present pair");
                    else {
                        R.yes(!m.containsKey(e), "put returned the live entry " + e); R.yes(!reserved.contains(e), "put returned the reserved entry " + e);
                        m.put(e, new int[] {a, b}); freed.remove(e);
                    }
                    if (held != null) { l.op("q is enumerated"); side(held, m, w, lr ? 1 : 0, lr ? b : a, defCounts); }
                } else if (op < 8) {
                    if (r.nextBoolean() && !m.isEmpty()) {
                        final List<Integer> es = new ArrayList<>(m.keySet()); final int e = es.get(r.nextInt(es.size())); final int[] p = m.get(e);
                        switch (r.nextInt(3)) {
                            case 0: l.op("remove(" + p[0] + ", " + p[1] + ")"); R.eq(e, R.call(o, "remove", p[0], p[1]), "remove"); break;
                            case 1: l.op("removeAt(" + e + ")"); R.call(o, "removeAt", e); break;
                            default: l.op("removeAtAndReserve(" + e + ")"); R.call(o, "removeAtAndReserve", e); reserved.add(e);
                        }
                        m.remove(e);
                    } else { l.op("remove(" + a + ", " + b + ")"); R.eq(had, R.call(o, "remove", a, b), "remove"); if (had >= 0) m.remove(had); }
                } else if (op == 8 && !reserved.isEmpty()) {
                    final int e = reserved.iterator().next(); l.op("freeReservedEntry(" + e + ")"); R.call(o, "freeReservedEntry", e); reserved.remove(e);
                } else {
                    side(o, m, "withLeft", 0, a, defCounts, r, l); if (mm) side(o, m, "withRight", 1, b, defCounts, r, l);
                }
                had = find(m, a, b);
                R.eq(had, R.call(o, "lookupEntry", a, b), "lookupEntry(" + a + ", " + b + ")"); R.eq(had >= 0, R.call(o, "contains", a, b), "contains(" + a + ", " + b + ")");
                R.eq(m.size(), R.call(o, "size"), "size");
            }
            for (Map.Entry<Integer, int[]> e : m.entrySet()) {
                R.eq(e.getValue()[0], R.call(o, "getLeftAt", e.getKey()), "getLeftAt(" + e.getKey() + ")"); R.eq(e.getValue()[1], R.call(o, "getRightAt", e.getKey()), "getRightAt(" + e.getKey() + ")");
                R.eq(e.getKey(), R.call(o, "lookupEntry", e.getValue()[0], e.getValue()[1]), "lookupEntry");
            }
            final List<Object> all = new ArrayList<>();
            R.call(o, "forEachEntry", R.fn(R.cls("functional.IntConsumer"), a -> { all.add(a[0]); return null; }));
            set(new ArrayList<Object>(m.keySet()), all, "forEachEntry");
            for (int k = 0; k < L + 2; k++) side(o, m, "withLeft", 0, k, defCounts, r, l);
            if (mm) for (int k = 0; k < Rt + 2; k++) side(o, m, "withRight", 1, k, defCounts, r, l);
        }
        static int key(Random r, int n) { return r.nextInt(n); }
        static int find(Map<Integer, int[]> m, int a, int b) { for (Map.Entry<Integer, int[]> e : m.entrySet()) if (e.getValue()[0] == a && e.getValue()[1] == b) return e.getKey(); return -1; }
        void side(Object o, Map<Integer, int[]> m, String w, int s, int k, boolean counts, Random r, Log l) { side(R.call(o, w, k), m, w, s, k, counts); }
        void side(Object q, Map<Integer, int[]> m, String w, int s, int k, boolean counts) {
            final List<Object> es = new ArrayList<>(), vs = new ArrayList<>();
            for (Map.Entry<Integer, int[]> e : m.entrySet()) if (e.getValue()[s] == k) { es.add(e.getKey()); vs.add(e.getValue()[1 - s]); }
            final String n = w + "(" + k + ").";
            if (counts) R.eq(es.size(), R.call(q, "count"), n + "count()");
            for (boolean ent : new boolean[] {true, false}) {
                final List<Object> g = new ArrayList<>(), h = new ArrayList<>();
                R.call(q, ent ? "forEachEntry" : "forEachValue", R.fn(R.cls("functional.IntConsumer"), a -> { g.add(a[0]); if (g.size() > es.size() + 5) throw new R.Fail(n + "forEach passes too many"); return null; }));
                set(ent ? es : vs, g, n + (ent ? "forEachEntry" : "forEachValue"));
                final Object it = R.call(q, ent ? "entryIterator" : "valueIterator");
                while (R.cb(it, "hasNext")) { h.add(R.call(it, "next")); if (h.size() > es.size() + 5) throw new R.Fail(n + "iterator passes too many"); }
                set(ent ? es : vs, h, n + (ent ? "entryIterator" : "valueIterator"));
            }
        }
        static void set(List<Object> exp, List<Object> act, String n) {
            final List<Object> a = new ArrayList<>(act);
            for (Object x : exp) R.yes(a.remove(x), n + " misses " + x + " of " + exp + ": got " + act);
            R.yes(a.isEmpty(), n + " passes " + a + " beyond " + exp);
        }
    }

    interface Cmp { int c(Object a, Object b); }
    /** a lawful comparator and its name */
    static Cmp cmp(R.Ty k, int kind) {
        final Cmp asc = (a, b) -> {
            if (a == null || b == null) return a == b ? 0 : a == null ? 1 : -1;
            @SuppressWarnings("unchecked") final Comparable<Object> x = (Comparable<Object>) a; return x.compareTo(b);
        };
        switch (kind) {
            case 0: return asc;
            case 1: return (a, b) -> asc.c(b, a);
            case 2: return (a, b) -> Integer.compare(bucket(a), bucket(b));
            case 3: return (a, b) -> 0;
            default: return (a, b) -> { final int x = asc.c(a, b); return x > 0 ? Integer.MAX_VALUE : x < 0 ? Integer.MIN_VALUE : 0; };
        }
    }
    static int bucket(Object a) { return Math.floorMod(Objects.hashCode(a), 4); }
    static Object cmpObj(R.Ty k, Cmp c) { return R.fn(R.cls("types." + k + "Type$Cmp"), a -> c.c(a[0], a[1])); }
    static final String[] CN = {"ascending", "descending", "by hash modulo 4", "all equal", "extreme results"};

    static final class HeapT extends T {
        final R.Ty k, v;
        HeapT(R.Ty k, R.Ty v) { super(k.name + v + "Heap", "K01", "K02", "K03", "K04"); this.k = k; this.v = v; }
        void run(Random r, int size, Log l) {
            final int cap = 1 + small(r, 20); l.op("new " + name + "(" + cap + ")");
            final Object h = R.neu(R.cls("heap." + name), cap);
            int kind = r.nextInt(5);
            Cmp c = cmp(k, kind);
            if (kind == 0 && !k.name.equals("Generic") && r.nextBoolean()) l.op("default comparator"); else { l.op("setComparator(" + CN[kind] + ")"); R.call(h, "setComparator", cmpObj(k, c)); }
            Object dk = k.def(), dv = v.def();
            final TreeMap<Integer, Object[]> m = new TreeMap<>(); final TreeSet<Integer> freed = new TreeSet<>(); int next = 0;
            final int bias = r.nextInt(4), uni = r.nextBoolean() ? 5 : 60;
            for (int i = 0; i < size; i++) {
                final int op = r.nextInt(14);
                if (m.isEmpty() && r.nextInt(3) == 0) { dk = noNegZero(k.rnd(r, 24)); dv = noNegZero(v.rnd(r, 24)); l.op("setDefaultKey(" + R.str(dk) + "), setDefaultValue(" + R.str(dv) + ")"); R.call(h, "setDefaultKey", dk); R.call(h, "setDefaultValue", dv); freed0(h, freed, next, dk, dv, l); }
                if (op < 4 + bias) {
                    final Object a = k.rnd(r, uni); final boolean val = r.nextBoolean(); final Object x = val ? v.rnd(r, 24) : dv;
                    l.op("insert(" + R.str(a) + (val ? ", " + R.str(x) : "") + ")");
                    final int e = val ? R.ci(h, "insert", a, x) : R.ci(h, "insert", a);
                    R.yes(!m.containsKey(e), "insert returned the live entry " + e);
                    if (!freed.isEmpty()) { R.yes(freed.contains(e), "insert returned " + e + " although entries " + freed + " were freed"); freed.remove(e); } else { R.yes(e >= 0, "entry"); next = Math.max(next, e + 1); }
                    m.put(e, new Object[] {a, x});
                } else if (op < 9) {
                    if (r.nextInt(6) == 0) bad(h, m, next, r, l, c);
                    else if (!m.isEmpty()) {
                        final int e = r.nextInt(3) == 0 ? R.ci(h, "peek") : pick(m, r);
                        l.op("removeAt(" + e + ")"); R.call(h, "removeAt", e); m.remove(e); freed.add(e);
                        if (l.wants("K04")) { R.eq(dk, R.call(h, "getKeyAt", e), "key at removed entry " + e); R.eq(dv, R.call(h, "getValueAt", e), "value at removed entry " + e); }
                    } else R.expect("Exception", "peek of an empty heap", () -> R.call(h, "peek"));
                } else if (op == 9 && !m.isEmpty()) {
                    final int e = pick(m, r); final Object a = k.rnd(r, uni); l.op("resetKey(" + e + ", " + R.str(a) + ")"); R.call(h, "resetKey", e, a); m.get(e)[0] = a;
                } else if (op == 10 && !m.isEmpty()) {
                    final int e = pick(m, r); final Object x = v.rnd(r, 24); l.op("setValueAt(" + e + ", " + R.str(x) + ")"); R.call(h, "setValueAt", e, x); m.get(e)[1] = x;
                } else if (op == 11 && r.nextInt(5) == 0) {
                    kind = r.nextInt(5); c = cmp(k, kind); l.op("setComparator(" + CN[kind] + ")"); R.call(h, "setComparator", cmpObj(k, c));
                } else if (op == 12 && r.nextInt(12) == 0) {
                    l.op("clear()"); R.call(h, "clear"); final Set<Integer> all = new TreeSet<>(m.keySet()); all.addAll(freed); m.clear(); freed.clear();
                    for (int e = 0; e < Math.min(next, R.ci(h, "getCapacity")); e++) { R.eq(dk, R.call(h, "getKeyAt", e), "key at " + e + " after clear"); R.eq(dv, R.call(h, "getValueAt", e), "value at " + e + " after clear"); R.eq(false, R.call(h, "isValidEntry", e), "isValidEntry(" + e + ") after clear"); }
                    R.expect("Exception", "peek after clear", () -> R.call(h, "peek"));
                    next = 0;
                } else if (op == 13) all(h, m, next, r, uni, c);
                else if (!m.isEmpty() && r.nextInt(4) == 0) { final Object x = k.rnd(r, 24), y = v.rnd(r, 24); expectAny("setDefaultKey on a non-empty heap", () -> R.call(h, "setDefaultKey", x)); expectAny("setDefaultValue on a non-empty heap", () -> R.call(h, "setDefaultValue", y)); }
                R.eq(m.size(), R.call(h, "getSize"), "getSize"); R.eq(m.isEmpty(), R.call(h, "isEmpty"), "isEmpty");
                least(h, m, c);
            }
            all(h, m, next, r, uni, c);
            // drain in order
            if (r.nextBoolean()) {
                Object prev = null; boolean first = true;
                while (!m.isEmpty()) {
                    final int e = R.ci(h, "peek"); least(h, m, c); final Object a = m.get(e)[0];
                    if (!first) R.yes(c.c(prev, a) <= 0, "draining gives " + R.str(a) + " after " + R.str(prev));
                    prev = a; first = false; l.op("removeAt(" + e + ")"); R.call(h, "removeAt", e); m.remove(e);
                }
            }
        }
        /** the array helpers count 0.0 and -0.0 as the same initial value */
        static Object noNegZero(Object a) { return a instanceof Float && (Float) a == 0f ? (Object) 0f : a instanceof Double && (Double) a == 0d ? (Object) 0d : a; }
        static void expectAny(String w, Runnable q) { R.expect("Exception", w, q); }
        void freed0(Object h, Set<Integer> freed, int next, Object dk, Object dv, Log l) { }
        void least(Object h, TreeMap<Integer, Object[]> m, Cmp c) {
            if (m.isEmpty()) return;
            final int e = R.ci(h, "peek"); R.yes(m.containsKey(e), "peek returns " + e + " which is not live");
            for (Map.Entry<Integer, Object[]> x : m.entrySet()) R.yes(c.c(m.get(e)[0], x.getValue()[0]) <= 0, "peek returns entry " + e + " with key " + R.str(m.get(e)[0]) + " but entry " + x.getKey() + " has key " + R.str(x.getValue()[0]));
        }
        static int pick(TreeMap<Integer, Object[]> m, Random r) { final List<Integer> x = new ArrayList<>(m.keySet()); return x.get(r.nextInt(x.size())); }
        void bad(Object h, TreeMap<Integer, Object[]> m, int next, Random r, Log l, Cmp c) {
            final int[] es = {-1, next, next + 1, R.ci(h, "getCapacity"), Integer.MAX_VALUE, Integer.MIN_VALUE, r.nextInt(next + 2), r.nextInt(next + 2)};
            final int e = es[r.nextInt(es.length)];
            if (m.containsKey(e)) return;
            l.op("removeAt(" + e + ") [not live]"); R.expect("Exception", "removeAt(" + e + ") of a not-live entry", () -> R.call(h, "removeAt", e));
            all(h, m, next, r, 8, c);
        }
        void all(Object h, TreeMap<Integer, Object[]> m, int next, Random r, int uni, Cmp c) {
            for (Map.Entry<Integer, Object[]> x : m.entrySet()) {
                final int e = x.getKey();
                R.eq(x.getValue()[0], R.call(h, "getKeyAt", e), "getKeyAt(" + e + ")"); R.eq(x.getValue()[1], R.call(h, "getValueAt", e), "getValueAt(" + e + ")");
                R.eq(x.getValue()[1], R.call(h, "getValueAtOrDefault", e, v.def()), "getValueAtOrDefault(" + e + ")");
            }
            final int lim = Math.min(next + 3, R.ci(h, "getCapacity") + 3);
            for (int e = -2; e < lim; e++) R.eq(m.containsKey(e), R.call(h, "isValidEntry", e), "isValidEntry(" + e + ")");
            final List<Object> g = new ArrayList<>();
            R.call(h, "forEachEntry", R.fn(java.util.function.IntConsumer.class, a -> { g.add(a[0]); return null; }));
            BiT.set(new ArrayList<Object>(m.keySet()), g, "forEachEntry");
            for (int i = 0; i < 6; i++) {
                final Object a = i < 2 && !m.isEmpty() ? m.get(pick(m, r))[0] : k.rnd(r, Math.max(uni, 12));
                boolean any = false; for (Object[] p : m.values()) any |= c.c(p[0], a) == 0;
                R.eq(any, R.call(h, "containsKey", a), "containsKey(" + R.str(a) + ")");
                final int e = R.ci(h, "getFirstEntry", a);
                if (any) R.yes(m.containsKey(e) && c.c(m.get(e)[0], a) == 0, "getFirstEntry(" + R.str(a) + ") returned " + e); else R.eq(-1, e, "getFirstEntry(" + R.str(a) + ")");
            }
        }
    }

    static final class SortT extends T {
        final R.Ty k, v;

        /** McIlroy's adversary: an arrangement that makes the pivots of this very sort fall near one end of the order */
        private void adversary(Random r, Class<?> c, Object a, int off, int n, Cmp cm) {
            final List<Object> keys = new ArrayList<>();
            for (int t = 0; t < 12 * n && keys.size() < n; t++) {
                final Object x = k.rnd(r, 8 * n); boolean dup = false;
                for (Object y : keys) dup |= cm.c(x, y) == 0;
                if (!dup) keys.add(x);
            }
            if (keys.size() < n) return;
            final int gas = n + 1, stop = r.nextInt(3) == 0 ? r.nextInt(n) : n, sign = r.nextBoolean() ? 1 : -1; final int[] val = new int[n], st = new int[2];
            Arrays.fill(val, gas);
            final Object p = k.arr(n), q = v.arr(n);
            for (int i = 0; i < n; i++) java.lang.reflect.Array.set(p, i, keys.get(i));
            final Cmp adv = (x, y) -> {
                int i = -1, j = -1;
                for (int e = 0; e < n; e++) { if (cm.c(keys.get(e), x) == 0) i = e; if (cm.c(keys.get(e), y) == 0) j = e; }
                if (i == j) return 0;
                if (val[i] == gas && val[j] == gas) { if (st[0] < stop) val[i == st[1] ? i : j] = st[0]++; else return sign * Integer.compare(i, j); }
                if (val[i] == gas) st[1] = i; else if (val[j] == gas) st[1] = j;
                return sign * Integer.compare(val[i], val[j]);
            };
            try { R.stat(c, "sort", p, q, 0, n, cmpObj(k, adv)); } catch (RuntimeException | Error e) { return; }
            final List<Object> so = new ArrayList<>(keys); so.sort((x, y) -> sign * cm.c(x, y));
            final List<Integer> ix = new ArrayList<>(); for (int i = 0; i < n; i++) ix.add(i);
            if (r.nextBoolean()) Collections.shuffle(ix, r);
            ix.sort((x, y) -> Integer.compare(val[x], val[y]));
            for (int i = 0; i < n; i++) java.lang.reflect.Array.set(a, off + ix.get(i), so.get(i));
        }

        SortT(R.Ty k, R.Ty v) { super(k.name + v + "CompanionSort", "S01", "S02"); this.k = k; this.v = v; }
        void run(Random r, int size, Log l) {
            final Class<?> c = R.cls("sort." + name);
            final int n = r.nextInt(3) == 0 ? r.nextInt(10) : r.nextInt(3) == 0 ? r.nextInt(1 + size * 2) : size;
            final int off = small(r, 6), tail = small(r, 6), tot = off + n + tail;
            final Object a = k.arr(tot), b = v.arr(tot); final int uni = r.nextInt(3) == 0 ? 3 : r.nextInt(2) == 0 ? 24 : Math.max(2, 2 * n);
            final int shape = r.nextInt(6), kind = r.nextInt(5); final Cmp cm = cmp(k, kind);
            for (int i = 0; i < tot; i++) { java.lang.reflect.Array.set(a, i, k.rnd(r, uni)); java.lang.reflect.Array.set(b, i, v.rnd(r, 200)); }
            final List<Object> ks = new ArrayList<>(); for (int i = 0; i < tot; i++) ks.add(java.lang.reflect.Array.get(a, i));
            if (shape == 1 || shape == 2 || shape == 3) { ks.sort(shape == 2 ? (x, y) -> cm.c(y, x) : (x, y) -> cm.c(x, y)); if (shape == 3 && tot > 1) Collections.swap(ks, r.nextInt(tot), r.nextInt(tot)); for (int i = 0; i < tot; i++) java.lang.reflect.Array.set(a, i, ks.get(i)); }
            if (shape == 4 && n > 2) adversary(r, c, a, off, n, cm);
            if (shape == 5 && tot > 2) {      // one key nearly everywhere, a few others
                final Object main = java.lang.reflect.Array.get(a, r.nextInt(tot)); final boolean split = r.nextBoolean(); final int few = 1 + r.nextInt(6);
                for (int i = 0; i < tot; i++) java.lang.reflect.Array.set(a, i, main);
                for (int i = 0; i < few; i++) {
                    Object x = k.rnd(r, 24);
                    for (int t = 0; t < 5 && (split || i < 2) && cm.c(x, main) < 0; t++) x = k.rnd(r, 24);
                    java.lang.reflect.Array.set(a, split ? r.nextInt(tot) : Math.max(0, off + n - 1 - r.nextInt(Math.max(1, n))), x);
                }
            }
            final Object a0 = SeqTests.copy(k, a), b0 = SeqTests.copy(v, b);
            l.op("sort(" + R.str(a) + ", " + R.str(b) + ", " + off + ", " + n + ", " + CN[kind] + ")");
            if (r.nextInt(8) == 0) {
                final int[][] bad = {{-1, n}, {off, -1}, {off, tot - off + 1}, {tot, 1}, {Integer.MAX_VALUE, 1}, {1, Integer.MAX_VALUE}, {-5, 5}};
                final int[] q = bad[r.nextInt(bad.length)]; l.op("sort with offset " + q[0] + ", length " + q[1]);
                R.expect("IllegalArgumentException", "sort with offset " + q[0] + " and length " + q[1] + " of " + tot, () -> R.stat(c, "sort", a, b, q[0], q[1], cmpObj(k, cm)));
                SeqTests.same(a0, a, "primary"); SeqTests.same(b0, b, "secondary"); return;
            }
            R.stat(c, "sort", a, b, off, n, cmpObj(k, cm));
            if (l.wants("S01")) for (int i = off + 1; i < off + n; i++) R.yes(cm.c(java.lang.reflect.Array.get(a, i - 1), java.lang.reflect.Array.get(a, i)) <= 0, "not in order at " + i + ": " + R.str(a));
            if (l.wants("S02")) {
                final Map<List<Object>, Integer> bag = new HashMap<>();
                for (int i = 0; i < tot; i++) {
                    final Object x0 = java.lang.reflect.Array.get(a0, i), y0 = java.lang.reflect.Array.get(b0, i), x = java.lang.reflect.Array.get(a, i), y = java.lang.reflect.Array.get(b, i);
                    if (i < off || i >= off + n) { R.eq(x0, x, "primary[" + i + "] outside the range"); R.eq(y0, y, "secondary[" + i + "] outside the range"); continue; }
                    bag.merge(Arrays.asList(x0, y0), 1, Integer::sum); bag.merge(Arrays.asList(x, y), -1, Integer::sum);
                }
                for (Map.Entry<List<Object>, Integer> e : bag.entrySet()) R.yes(e.getValue() == 0, "pair " + e.getKey() + " occurs " + (e.getValue() > 0 ? "less" : "more") + " often than before");
            }
        }
    }
}
