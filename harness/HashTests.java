import java.util.*;

/** indexed sets and maps against a model of live, freed and reserved entries */
final class HashTests {
    static void add(List<T> out) {
        int i = 0;
        final List<String> vals = new ArrayList<>(List.of(R.TYPES));
        for (R.Ty k : R.TY.values()) {
            if (k.name.equals("Bool")) continue;
            out.add(new HashT(k, null));
            for (int j = 0; j < vals.size(); j++) out.add(new HashT(k, R.ty(vals.get((i + j) % vals.size()))));
            i++;
        }
    }

    /** reference model */
    static final class Model {
        TreeMap<Integer, Object> keys = new TreeMap<>();
        TreeMap<Integer, Object> vals = new TreeMap<>();
        TreeSet<Integer> freed = new TreeSet<>(), reserved = new TreeSet<>();
        List<Object[]> put = new ArrayList<>(); int next; long version; boolean fold; int hashKind;
        Model copy() {
            final Model m = new Model();
            m.keys.putAll(keys); m.vals.putAll(vals); m.freed.addAll(freed); m.reserved.addAll(reserved); m.put.addAll(put);
            m.next = next; m.version = version; m.fold = fold; m.hashKind = hashKind;
            return m;
        }
    }

    static boolean keyEq(R.Ty t, boolean fold, Object a, Object b) {
        if (a == null || b == null) return a == b;
        if (t.name.equals("Float")) return (Float) a == (float) (Float) b;
        if (t.name.equals("Double")) return (Double) a == (double) (Double) b;
        if (fold) return fold(a).equals(fold(b));
        return a.equals(b);
    }
    static Object fold(Object a) { return a instanceof String ? ((String) a).toLowerCase(Locale.ROOT) : a; }

    static final class It { Object it; long version; Set<Integer> seen = new HashSet<>(); boolean removed; boolean started; int cur = -1; boolean any; }

    static final class HashT extends T {
        final R.Ty k, v;
        HashT(R.Ty k, R.Ty v) {
            super(k.name + (v == null ? "IndexedSet" : v + "IndexedMap"), "H01", "H02", "H03", "H04", "H05", "H06", "H07", "H08", "G01");
            this.k = k; this.v = v;
        }

        void run(Random r, int size, Log l) { new Run(r, size, l).go(); }

        final class Run {
            final Random r; final int size; final Log l; final Class<?> c = R.cls("hash." + name);
            final int universe;
            Object o; Model m; String w = "a";
            List<It> its = new ArrayList<>();
            Run(Random r, int size, Log l) {
                this.r = r; this.size = size; this.l = l;
                universe = r.nextInt(4) == 0 ? 6 : 10 + r.nextInt(Math.max(20, size));
            }
            double lf() { final int x = r.nextInt(6); return x == 0 ? 1.0 : x == 1 ? 0.5 : x == 2 ? 0.25 : x == 3 ? 0.01 : x == 4 ? 0.999 : 0.9; }
            Object make(String n) {
                final int cap = 1 + small(r, 40); Object a;
                if (r.nextInt(3) > 0) { l.op(n + " = new " + name + "(" + cap + ")"); a = R.neu(c, cap); }
                else { final double f = lf(); l.op(n + " = new " + name + "(" + cap + ", " + f + ")"); a = R.neu(c, cap, f); }
                return a;
            }
            void fns() {
                if (r.nextInt(3) != 0) return;
                final boolean str = k.name.equals("String");
                try { R.methods(c, "setHashMethod", 1); } catch (RuntimeException e) { return; }
                final String hm = has("setHashMethod") ? "setHashMethod" : has("_setHashMethod") ? "_setHashMethod" : null;
                final String em = has("setEqMethod") ? "setEqMethod" : has("_setEqMethod") ? "_setEqMethod" : null;
                if (hm == null) return;
                final int kind = 1 + r.nextInt(3);
                final boolean fo = str && em != null && r.nextBoolean();
                final Class<?> hc = innerOf("Hash"), ec = innerOf("Eq");
                l.op(w + "." + hm + "(hash kind " + kind + ")");
                R.call(o, hm, R.fn(hc, a -> hash(kind, a[0])));
                if (fo) { l.op(w + "." + em + "(case-insensitive)"); R.call(o, em, R.fn(ec, a -> keyEq(k, true, a[0], a[1]))); m.fold = true; }
                m.hashKind = kind;
            }
            boolean has(String n) { return R.methods(c, n, 1).length > 0; }
            Class<?> innerOf(String n) { return R.cls("types." + k + "Type$" + n); }
            int hash(int kind, Object a) {
                if (kind == 1) return -7;
                Object f = fold(a);
                if (f instanceof Float && (Float) f == 0f) f = 0f;
                if (f instanceof Double && (Double) f == 0d) f = 0d;
                final int h = Objects.hashCode(f);
                return kind == 2 ? h * 0x9E3779B9 : h & 3;
            }
            Object key() {
                Object a = k.rnd(r, universe);
                if (a instanceof String && !((String) a).isEmpty() && m.fold && r.nextBoolean()) a = ((String) a).toUpperCase(Locale.ROOT);
                return a;
            }
            int find(Object a) { for (Map.Entry<Integer, Object> e : m.keys.entrySet()) if (keyEq(k, m.fold, a, e.getValue())) return e.getKey(); return -1; }
            Object presentKey() { final List<Object> x = new ArrayList<>(m.keys.values()); return x.isEmpty() ? null : x.get(r.nextInt(x.size())); }
            int live() { final List<Integer> x = new ArrayList<>(m.keys.keySet()); return x.isEmpty() ? -1 : x.get(r.nextInt(x.size())); }

            void go() {
                m = new Model(); o = make("a"); fns();
                final int addBias = r.nextInt(5);
                final boolean iters = r.nextInt(3) == 0, reserve = r.nextInt(2) == 0;
                for (int i = 0; i < size; i++) {
                    final int q = r.nextInt(12);
                    if (q < 2 + addBias) doAdd(key());
                    else if (q < 8) {
                        switch (r.nextInt(reserve ? 5 : 3)) {
                            case 0: doRemove(r.nextInt(3) == 0 || m.keys.isEmpty() ? key() : presentKey()); break;
                            case 1: doRemoveAt(live()); break;
                            case 2: if (r.nextInt(3) == 0) notLive(); else doAdd(key()); break;
                            case 3: doReserve(live()); break;
                            default: doFree();
                        }
                    } else if (q == 8) {
                        if (r.nextInt(10) == 0) doClear(); else query(key());
                    } else if (q == 9) {
                        if (r.nextInt(8) == 0) each(r.nextBoolean()); else query(key());
                    } else if (q == 10 && iters) stepIter();
                    else if (q == 11 && iters) { if (r.nextInt(4) == 0) fullIter(); }
                    else if (v != null && !m.keys.isEmpty()) {
                        final int e = live(); final Object x = v.rnd(r, 24);
                        l.op(w + ".putValueAt(" + e + ", " + R.str(x) + ")"); R.call(o, "putValueAt", e, x); m.vals.put(e, x);
                    }
                    sizes();
                    if (r.nextInt(40) == 0) all();
                    if (l.wants("H07") && r.nextInt(Math.max(12, size / 3)) == 0 || l.wants("H06") && r.nextInt(Math.max(40, size)) == 0) copy();
                }
                all(); if (r.nextInt(2) == 0) each(false); if (r.nextInt(3) == 0) fullIter(); if (l.wants("H07") && r.nextInt(2) == 0) copy();
                if (r.nextInt(6) == 0) { doClear(); all(); for (int i = 0; i < 5; i++) doAdd(key()); all(); }
            }

            void sizes() { R.eq(m.keys.size(), R.call(o, "size"), "size"); R.eq(m.keys.isEmpty(), R.call(o, "isEmpty"), "isEmpty"); }

            void doAdd(Object a) {
                final int had = find(a); final boolean put = v != null && r.nextBoolean(); final Object x = put ? v.rnd(r, 24) : null;
                l.op(w + (put ? ".put(" + R.str(a) + ", " + R.str(x) + ")" : ".add(" + R.str(a) + ")"));
                final int e = (Integer) (put ? R.call(o, "put", a, x) : R.call(o, "add", a));
                if (had >= 0) { R.eq(had, e, "entry of the present key " + R.str(a)); if (put) m.vals.put(e, x); }
                else {
                    fresh(e);
                    m.keys.put(e, a); if (v != null) m.vals.put(e, put ? x : v.def()); m.version++;
                }
            }
            void fresh(int e) {
                if (!m.freed.isEmpty()) { R.yes(m.freed.contains(e), "new entry " + e + " is not one of the freed entries " + m.freed + (m.reserved.contains(e) ? " but reserved" : m.keys.containsKey(e) ? " but of another live key" : "")); m.freed.remove(e); }
                else { R.eq(m.next, e, "new entry (nothing freed)"); m.next++; }
            }
            void gone(int e, boolean freed) {
                final Object a = m.keys.remove(e), x = m.vals.remove(e); m.version++;
                if (freed) { m.freed.add(e); released(e, a, x); } else { m.reserved.add(e); m.put.add(new Object[] {a, x}); }
            }
            void released(int e, Object a, Object x) {
                if (!l.wants("G01") && !l.wants("H01") && !l.wants("H04")) return;
                if (l.wants("G01")) {
                    R.eq(k.def(), R.call(o, "getKeyAt", e), "key at freed entry " + e);
                    if (v != null) R.eq(v.def(), R.call(o, "getValueAt", e), "value at freed entry " + e);
                    held(a, m.keys.values(), k); if (v != null) held(x, m.vals.values(), v);
                }
            }
            void held(Object a, Collection<Object> live, R.Ty t) {
                if (!t.ref || a == null || !m.reserved.isEmpty()) return;
                for (Object b : live) if (b == a) return;
                if (((Object) "").equals(a)) return;
                R.yes(!R.reaches(o, a), "removed " + R.str(a) + " is still referenced");
            }
            void doRemove(Object a) {
                final int had = find(a);
                l.op(w + ".remove(" + R.str(a) + ")");
                final int e = (Integer) R.call(o, "remove", a);
                R.eq(had, e, "remove(" + R.str(a) + ")");
                if (had >= 0) gone(had, true);
            }
            void doRemoveAt(int e) { if (e < 0) return; l.op(w + ".removeAt(" + e + ")"); R.call(o, "removeAt", e); gone(e, true); }
            void notLive() {
                final List<Integer> x = new ArrayList<>(m.freed); x.addAll(m.reserved); if (m.next < ((Integer) R.call(o, "capacity"))) x.add(m.next);
                if (x.isEmpty()) return;
                final int e = x.get(r.nextInt(x.size()));
                l.op(w + ".removeAt(" + e + ") [not live]"); R.call(o, "removeAt", e);
            }
            void doReserve(int e) { if (e < 0) return; l.op(w + ".removeAtAndReserve(" + e + ")"); R.call(o, "removeAtAndReserve", e); gone(e, false); }
            void doFree() {
                if (m.reserved.isEmpty()) return;
                final List<Integer> x = new ArrayList<>(m.reserved); final int e = x.get(r.nextInt(x.size()));
                l.op(w + ".freeReservedEntry(" + e + ")"); R.call(o, "freeReservedEntry", e); m.reserved.remove(e); m.freed.add(e);
                if (l.wants("G01")) {
                    R.eq(k.def(), R.call(o, "getKeyAt", e), "key at freed entry " + e);
                    if (v != null) R.eq(v.def(), R.call(o, "getValueAt", e), "value at freed entry " + e);
                }
            }
            void doClear() {
                if (m.keys.size() < 50 && (l.wants("G01") || l.wants("H03")) && r.nextInt(3) == 0) while (!m.keys.isEmpty()) doReserve(m.keys.firstKey());
                l.op(w + ".clear()"); R.call(o, "clear");
                final List<Object> a = new ArrayList<>(m.keys.values()), x = new ArrayList<>(m.vals.values());
                if (!m.keys.isEmpty()) m.version++; else its.clear();
                m.keys.clear(); m.vals.clear(); m.freed.clear(); m.reserved.clear(); m.next = 0;
                if (l.wants("G01")) { for (Object y : a) held(y, List.of(), k); if (v != null) for (Object y : x) held(y, List.of(), v); for (Object[] y : m.put) { held(y[0], List.of(), k); if (v != null) held(y[1], List.of(), v); } }
                m.put.clear();
            }
            void query(Object a) {
                final int had = find(a);
                R.eq(had, R.call(o, "lookupEntry", a), "lookupEntry(" + R.str(a) + ")");
                R.eq(had >= 0, R.call(o, "containsKey", a), "containsKey(" + R.str(a) + ")");
                if (had >= 0) R.eq(m.keys.get(had), R.call(o, "getKeyAt", had), "getKeyAt(" + had + ")");
                if (v == null) return;
                final Object d = v.rnd(r, 24);
                if (had >= 0) {
                    final Object x = m.vals.get(had);
                    R.eq(x, R.call(o, "get", a), "get(" + R.str(a) + ")");
                    R.eq(x, R.call(o, "getOrDefault", a, d), "getOrDefault(" + R.str(a) + ")");
                    R.eq(x, R.call(o, "getValueAt", had), "getValueAt(" + had + ")");
                    R.eq(x, R.call(o, "getValueAtOrDefault", had, d), "getValueAtOrDefault(" + had + ")");
                } else {
                    R.expect("KeyNotFoundException", "get(" + R.str(a) + ")", () -> R.call(o, "get", a));
                    R.eq(d, R.call(o, "getOrDefault", a, d), "getOrDefault(" + R.str(a) + ")");
                }
            }
            void all() {
                sizes();
                for (Object a : new ArrayList<>(m.keys.values())) query(a);
                for (int i = 0; i < 3; i++) query(key());
                for (int e : m.keys.keySet()) R.eq(m.keys.get(e), R.call(o, "getKeyAt", e), "getKeyAt(" + e + ")");
            }
            static final int KEYS = 0, ENTRIES = 1, VALUES = 2;
            void each(boolean remove) {
                final int what = r.nextInt(v == null ? 2 : 3);
                final String n = what == KEYS ? "forEach" : what == ENTRIES ? "forEachEntry" : "forEachValue";
                final List<Object> seen = new ArrayList<>();
                if (remove && what != VALUES) {
                    l.op(w + "." + n + "(remove some)");
                    final Model b = m.copy(); final boolean byKey = r.nextBoolean();
                    R.call(o, n, R.fn(R.cls("functional." + (what == KEYS ? k.name : "Int") + "Consumer"), a -> {
                        seen.add(a[0]);
                        final int e = what == KEYS ? find(a[0]) : (Integer) a[0];
                        R.yes(e >= 0 && m.keys.containsKey(e), n + " passed " + R.str(a[0]) + ", which is not live");
                        if (r.nextInt(3) > 0) { if (byKey) { final Object kk = m.keys.get(e); l.op("  " + w + ".remove(" + R.str(kk) + ")"); R.eq(e, R.call(o, "remove", kk), "remove in callback"); gone(e, true); } else doRemoveAt(e); }
                        return null;
                    }));
                    bag(what == KEYS ? b.keys.values() : new ArrayList<Object>(b.keys.keySet()), seen, n);
                    all();
                } else {
                    l.op(w + "." + n);
                    R.call(o, n, R.fn(R.cls("functional." + (what == KEYS ? k.name : what == ENTRIES ? "Int" : v.name) + "Consumer"), a -> { seen.add(a[0]); return null; }));
                    bag(what == KEYS ? m.keys.values() : what == ENTRIES ? new ArrayList<Object>(m.keys.keySet()) : m.vals.values(), seen, n);
                }
            }
            void bag(Collection<?> exp, List<Object> act, String n) {
                final List<Object> left = new ArrayList<>(exp);
                for (Object a : act) if (!rm(left, a)) throw new R.Fail(n + " passed " + R.str(a) + " too often or wrongly; expected " + str(exp) + " but got " + str(act));
                R.yes(left.isEmpty(), n + " missed " + str(left) + " of " + str(exp));
            }
            boolean rm(List<Object> x, Object a) { for (int i = 0; i < x.size(); i++) if (Objects.equals(x.get(i), a)) { x.remove(i); return true; } return false; }
            String str(Collection<?> x) { final StringBuilder b = new StringBuilder(); for (Object a : x) b.append(R.str(a)).append(' '); return b.toString(); }

            It newIter(It old) {
                final It t = old != null ? old : new It();
                if (old == null) t.it = R.call(o, "iterator");
                else if (r.nextBoolean()) R.call(t.it, "reset"); else R.eq(t.it, R.call(o, "iterator", t.it), "iterator(it)");
                t.version = m.version; t.seen.clear(); t.removed = false; t.started = false; t.any = false; t.cur = -1;
                return t;
            }
            void stepIter() {
                if (its.isEmpty() || (its.size() < 3 && r.nextInt(12) == 0)) { l.op(w + ".iterator() #" + its.size()); its.add(newIter(null)); return; }
                final int n = r.nextInt(its.size()); final It t = its.get(n);
                if (r.nextInt(20) == 0) { l.op("#" + n + " reset"); newIter(t); return; }
                if (t.version != m.version) {
                    final String op = r.nextBoolean() ? "next" : "remove";
                    l.op("#" + n + "." + op + "() after an outside change");
                    R.expect("ConcurrentModificationException", op, () -> R.call(t.it, op));
                    all();
                    if (r.nextBoolean()) { l.op("#" + n + " reset"); newIter(t); }
                    return;
                }
                if (t.any && r.nextInt(3) == 0) itRemove(t, n); else if (!itNext(t, n)) { l.op("#" + n + " reset"); newIter(t); }
            }
            boolean itNext(It t, int n) {
                l.op("#" + n + ".next()");
                final boolean b = (Boolean) R.call(t.it, "next");
                final Set<Integer> left = new TreeSet<>(m.keys.keySet()); left.removeAll(t.seen);
                t.started = true;
                if (!b) { R.yes(left.isEmpty(), "iterator ended without visiting entries " + left); t.any = false; return false; }
                final int e = (Integer) R.call(t.it, "currentEntry");
                R.yes(left.contains(e), "iterator visits entry " + e + (m.keys.containsKey(e) ? " again" : " which is not live"));
                t.seen.add(e); t.cur = e; t.any = true; t.removed = false;
                return true;
            }
            void itRemove(It t, int n) {
                l.op("#" + n + ".remove()");
                if (t.removed) { R.expect("IllegalStateException", "second remove", () -> R.call(t.it, "remove")); all(); return; }
                R.call(t.it, "remove"); gone(t.cur, true); t.removed = true; t.version = m.version;
                sizes();
            }
            void fullIter() {
                l.op(w + ".iterator() *"); final It t = newIter(null); final int p = r.nextInt(4);
                while (itNext(t, 9)) { if (r.nextInt(4) < p) { itRemove(t, 9); if (r.nextInt(8) == 0) itRemove(t, 9); } }
                all();
            }
            void copy() {
                final Object src = o, keepSrc = o; final Model sm = m; final String sw = w;
                // a target with its own history
                final Model tm = new Model(); m = tm; o = make("b"); w = "b"; its.clear();
                fns();
                final int n = r.nextInt(3) == 0 ? 0 : r.nextInt(40);
                for (int i = 0; i < n; i++) { final int q = r.nextInt(6); if (q < 4) doAdd(key()); else if (q == 4) doRemove(key()); else if (r.nextInt(6) == 0) doClear(); else doReserve(live()); }
                final It t = l.wants("H06") ? newIter(null) : null;
                if (t != null && r.nextBoolean()) itNext(t, 7);
                l.op("b.copyFrom(" + sw + ")");
                R.call(o, "copyFrom", src);
                if (t != null) { final String op = r.nextBoolean() ? "next" : "remove"; l.op("#7." + op + "() after an outside change"); R.expect("ConcurrentModificationException", op, () -> R.call(t.it, op)); }
                final Object tgt = o; m = sm.copy(); w = "b"; all(); each(false); fullIterNoRemove();
                final Model tmodel = m;
                o = src; m = sm; w = sw; all(); each(false);
                // changes to one leave the other alone; both evolve alike
                final int mode = r.nextInt(3);
                if (mode == 0) {
                    for (int i = 0; i < 20; i++) {
                        final long s = r.nextLong();
                        o = src; m = sm; w = sw; final Random keep = r; final String x1 = step(new Random(s));
                        o = tgt; m = tmodel; w = "b"; final String x2 = step(new Random(s));
                        R.eq(x1, x2, "copy behaves as the source");
                    }
                    o = src; m = sm; w = sw; all(); o = tgt; m = tmodel; w = "b"; all();
                } else {
                    final boolean onTgt = mode == 1;
                    o = onTgt ? tgt : src; m = onTgt ? tmodel : sm; w = onTgt ? "b" : sw;
                    for (int i = 0; i < 15; i++) step(new Random(r.nextLong()));
                    all(); if (r.nextInt(3) == 0) doClear();
                    o = onTgt ? src : tgt; m = onTgt ? sm : tmodel; w = onTgt ? sw : "b"; all(); each(false);
                    o = onTgt ? tgt : src; m = onTgt ? tmodel : sm; w = onTgt ? "b" : sw; all();
                }
                if (r.nextBoolean()) { o = tgt; m = tmodel; w = "b"; } else { o = src; m = sm; w = sw; }
            }
            void fullIterNoRemove() { final It t = newIter(null); while (itNext(t, 8)) { } }
            String step(Random q) {
                final Object a = k.rnd(q, universe); final int x = q.nextInt(5);
                final int before = m.keys.size();
                if (x < 3) {
                    final int had = find(a); l.op(w + ".add(" + R.str(a) + ")"); final int e = (Integer) R.call(o, "add", a);
                    if (had >= 0) R.eq(had, e, "entry of the present key"); else { fresh(e); m.keys.put(e, a); if (v != null) m.vals.put(e, v.def()); m.version++; }
                    return "add " + e;
                }
                if (x == 3) { final int e = find(a); doRemove(a); return "remove " + e; }
                if (m.keys.isEmpty()) return "";
                final List<Integer> es = new ArrayList<>(m.keys.keySet()); final int e = es.get(q.nextInt(es.size()));
                if (q.nextBoolean()) { doRemoveAt(e); return "removeAt " + e; }
                doReserve(e); return "reserve " + e;
            }
        }
    }
}
