import java.lang.reflect.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;

/** Reflection on the classes under test; test failures; value universes per element type. */
final class R {
    static final String P = "com.bytefacets.collections.";

    static final class Fail extends RuntimeException {
        Fail(String m) { super(m); }
    }

    /** what the code under test threw */
    static final class Thrown extends RuntimeException {
        final Throwable t;
        Thrown(Throwable t) { super(t); this.t = t; }
    }

    static final Map<String, Class<?>> CLS = new ConcurrentHashMap<>();

    static Class<?> cls(String n) {
        return CLS.computeIfAbsent(n, k -> {
            try { return Class.forName(P + k); } catch (ClassNotFoundException e) { throw new IllegalStateException(e); }
        });
    }

    static boolean fits(Class<?> p, Object a) {
        if (!p.isPrimitive()) return a == null || p.isInstance(a);
        if (a == null) return false;
        if (p == int.class) return a instanceof Integer;
        if (p == long.class) return a instanceof Long;
        if (p == boolean.class) return a instanceof Boolean;
        if (p == byte.class) return a instanceof Byte;
        if (p == short.class) return a instanceof Short;
        if (p == char.class) return a instanceof Character;
        if (p == float.class) return a instanceof Float;
        if (p == double.class) return a instanceof Double;
        return false;
    }

    static Object neu(Class<?> c, Object... args) {
        for (Constructor<?> k : c.getDeclaredConstructors()) {
            if (fitsAll(k.getParameterTypes(), args)) {
                try { k.setAccessible(true); return k.newInstance(args); }
                catch (InvocationTargetException e) { throw thrown(e.getCause()); }
                catch (ReflectiveOperationException e) { throw new IllegalStateException(e); }
            }
        }
        throw new IllegalStateException("no constructor " + c + Arrays.toString(args));
    }

    static boolean fitsAll(Class<?>[] ps, Object[] args) {
        if (ps.length != args.length) return false;
        for (int i = 0; i < ps.length; i++) if (!fits(ps[i], args[i])) return false;
        return true;
    }

    static RuntimeException thrown(Throwable t) {
        if (t instanceof Fail) return (Fail) t;
        if (t instanceof VirtualMachineError && !(t instanceof StackOverflowError) && !(t instanceof OutOfMemoryError)) throw (VirtualMachineError) t;
        return new Thrown(t);
    }

    static final Map<String, Method[]> METHODS = new ConcurrentHashMap<>();

    static Method[] methods(Class<?> c, String n, int argc) {
        return METHODS.computeIfAbsent(c.getName() + "#" + n + "#" + argc, k -> {
            List<Method> r = new ArrayList<>();
            Set<String> seen = new HashSet<>();
            Deque<Class<?>> todo = new ArrayDeque<>();
            todo.add(c);
            while (!todo.isEmpty()) {
                Class<?> d = todo.poll();
                for (Method m : d.getDeclaredMethods())
                    if (m.getName().equals(n) && m.getParameterCount() == argc && !m.isBridge()) {
                        if (seen.add(Arrays.toString(m.getParameterTypes()))) { m.setAccessible(true); r.add(m); }
                    }
                if (d.getSuperclass() != null && d.getSuperclass() != Object.class) todo.add(d.getSuperclass());
                todo.addAll(Arrays.asList(d.getInterfaces()));
            }
            return r.toArray(new Method[0]);
        });
    }

    static Object call(Object o, String n, Object... args) { return call0(o.getClass(), o, n, args); }

    static Object stat(Class<?> c, String n, Object... args) { return call0(c, null, n, args); }

    private static Object call0(Class<?> c, Object o, String n, Object[] args) {
        for (Method m : methods(c, n, args.length)) {
            if ((o == null) != Modifier.isStatic(m.getModifiers())) continue;
            if (fitsAll(m.getParameterTypes(), args)) {
                try { return m.invoke(o, args); }
                catch (InvocationTargetException e) { throw thrown(e.getCause()); }
                catch (IllegalAccessException e) { throw new IllegalStateException(e); }
            }
        }
        throw new IllegalStateException("no method " + c + "." + n + Arrays.toString(args));
    }

    static int ci(Object o, String n, Object... args) { return (Integer) call(o, n, args); }
    static boolean cb(Object o, String n, Object... args) { return (Boolean) call(o, n, args); }

    /** a functional object of the interface called fn, whose single method is f */
    interface F { Object ap(Object[] a); }

    static Object fn(Class<?> iface, F f) {
        return Proxy.newProxyInstance(iface.getClassLoader(), new Class<?>[] {iface}, (p, m, a) -> {
            if (m.getDeclaringClass() == Object.class) {
                if (m.getName().equals("equals")) return p == a[0];
                if (m.getName().equals("hashCode")) return System.identityHashCode(p);
                return "fn";
            }
            return f.ap(a == null ? new Object[0] : a);
        });
    }

    /** expects the call to throw exc (simple name); returns false if it did */
    static void expect(String exc, String what, Runnable r) {
        try { r.run(); }
        catch (Thrown t) {
            for (Class<?> c = t.t.getClass(); c != null; c = c.getSuperclass()) if (c.getSimpleName().equals(exc)) return;
            throw new Fail(what + " threw " + t.t + " instead of " + exc);
        }
        throw new Fail(what + " did not throw " + exc);
    }

    static String str(Object o) {
        if (o == null) return "null";
        Class<?> c = o.getClass();
        if (c.isArray()) {
            StringBuilder b = new StringBuilder("[");
            for (int i = 0; i < Array.getLength(o); i++) b.append(i > 0 ? "," : "").append(str(Array.get(o, i)));
            return b.append("]").toString();
        }
        if (o instanceof String) return "\"" + o + "\"";
        if (o instanceof Character) return "'\\u" + Integer.toHexString((Character) o) + "'";
        return o.toString();
    }

    /** same value, bit for bit */
    static boolean same(Object a, Object b) { return Objects.equals(a, b); }

    static void eq(Object exp, Object act, String what) {
        if (!same(exp, act)) throw new Fail(what + ": expected " + str(exp) + " but was " + str(act));
    }

    static void yes(boolean b, String what) { if (!b) throw new Fail(what); }

    static Object getField(Object o, String n) {
        for (Class<?> c = o.getClass(); c != null; c = c.getSuperclass())
            try { Field f = c.getDeclaredField(n); f.setAccessible(true); return f.get(o); }
            catch (NoSuchFieldException e) { continue; }
            catch (IllegalAccessException e) { throw new IllegalStateException(e); }
        return null;
    }

    /** every reference reachable from o through fields and arrays of the library's own objects */
    static boolean reaches(Object o, Object target) { return reaches(o, target, Collections.newSetFromMap(new IdentityHashMap<>()), 0); }

    private static boolean reaches(Object o, Object target, Set<Object> seen, int d) {
        if (o == null || d > 8) return false;
        if (o == target) return true;
        if (!seen.add(o)) return false;
        Class<?> c = o.getClass();
        if (c.isArray()) {
            if (c.getComponentType().isPrimitive()) return false;
            for (Object x : (Object[]) o) if (reaches(x, target, seen, d + 1)) return true;
            return false;
        }
        if (!c.getName().startsWith(P)) return false;
        for (; c != null && c != Object.class; c = c.getSuperclass())
            for (Field f : c.getDeclaredFields()) {
                if (Modifier.isStatic(f.getModifiers()) || f.getType().isPrimitive()) continue;
                try { f.setAccessible(true); if (reaches(f.get(o), target, seen, d + 1)) return true; }
                catch (IllegalAccessException e) { throw new IllegalStateException(e); }
            }
        return false;
    }

    // ------------------------------------------------------------------ element types
    static final String[] TYPES = {"Int", "String", "Long", "Byte", "Short", "Char", "Float", "Double", "Bool", "Generic"};

    static final class Ty {
        final String name; final Class<?> c; final boolean ref;
        Ty(String n) {
            name = n; ref = n.equals("String") || n.equals("Generic");
            c = switch (n) {
                case "Bool" -> boolean.class; case "Byte" -> byte.class; case "Short" -> short.class; case "Char" -> char.class;
                case "Int" -> int.class; case "Long" -> long.class; case "Float" -> float.class; case "Double" -> double.class;
                case "String" -> String.class; default -> Object.class;
            };
        }
        Object def() {
            return switch (name) {
                case "Bool" -> false; case "Byte" -> (byte) 0; case "Short" -> (short) 0; case "Char" -> (char) 0;
                case "Int" -> 0; case "Long" -> 0L; case "Float" -> 0f; case "Double" -> 0d; default -> null;
            };
        }
        Object arr(int n) { return Array.newInstance(c, n); }
        /** the i-th value of a small universe */
        Object val(int i) {
            int[] sp = {0, 1, -1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 64, 127, -128, 100, 10, 11, 12, 13, 31, 33, 48, 1024};
            int k = i < sp.length ? sp[i] : i * 7 - 90;
            return switch (name) {
                case "Bool" -> (i & 1) == 1;
                case "Byte" -> (byte) k;
                case "Short" -> (short) (i % 5 == 4 ? k * 256 : k);
                case "Char" -> (char) (i % 5 == 4 ? k * 256 : k);
                case "Int" -> i == 9 ? Integer.MIN_VALUE : i == 12 ? Integer.MAX_VALUE : i % 5 == 4 ? k << 16 : k;
                case "Long" -> i == 9 ? Long.MIN_VALUE : i == 12 ? Long.MAX_VALUE : i % 5 == 4 ? ((long) k) << 32 : (long) k;
                case "Float" -> i == 2 ? -0f : i == 9 ? Float.POSITIVE_INFINITY : i == 12 ? Float.MIN_VALUE : i % 3 == 1 ? k + 0.5f : (float) k;
                case "Double" -> i == 2 ? -0d : i == 9 ? Double.NEGATIVE_INFINITY : i == 12 ? Double.MIN_VALUE : i % 3 == 1 ? k + 0.5d : (double) k;
                case "String" -> i == 3 ? null : i == 5 ? "" : ("s" + k);
                default -> i == 3 ? null : new G(k);
            };
        }
        Object rnd(Random r, int universe) { return val(r.nextInt(universe)); }
        public String toString() { return name; }
    }

    /** an object with value equality and few hash codes */
    static final class G implements Comparable<G> {
        final int v;
        G(int v) { this.v = v; }
        @Override public boolean equals(Object o) { return o instanceof G && ((G) o).v == v; }
        @Override public int hashCode() { return v % 5 == 0 ? 1 << 20 : v; }
        @Override public int compareTo(G o) { return Integer.compare(v, o.v); }
        @Override public String toString() { return "G" + v; }
    }

    static final Map<String, Ty> TY = new LinkedHashMap<>();
    static { for (String n : TYPES) TY.put(n, new Ty(n)); }
    static Ty ty(String n) { return TY.get(n); }
}
