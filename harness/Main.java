import java.util.*;
import java.util.concurrent.atomic.*;

/** Main PROPERTY SEED SECONDS THREADS: searches for a failing history; status 3 and FAIL-BEGIN..FAIL-END if found. */
public final class Main {
    static volatile boolean stop;
    static final AtomicLong runs = new AtomicLong(), steps = new AtomicLong();
    static volatile String fail;

    public static void main(String[] a) throws Exception {
        final String prop = a[0]; final long seed = Long.parseLong(a[1]); final double sec = Double.parseDouble(a[2]); final int nt = Integer.parseInt(a[3]);
        final List<T> tests = new ArrayList<>();
        for (T t : All.tests()) if (t.props.contains(prop)) tests.add(t);
        if (tests.isEmpty()) { System.out.println("RUNS 0 0"); System.exit(0); }
        if (a.length > 4) { one(prop, tests, a[4], Long.parseLong(a[5]), Integer.parseInt(a[6])); return; }
        final long end = System.nanoTime() + (long) (sec * 1e9);
        final Worker[] ws = new Worker[nt];
        for (int i = 0; i < nt; i++) { ws[i] = new Worker(prop, tests, seed * 1000003 + i * 7919L, end); ws[i].setDaemon(true); ws[i].start(); }
        final java.lang.management.ThreadMXBean mx = java.lang.management.ManagementFactory.getThreadMXBean();
        while (true) {
            boolean alive = false;
            for (Worker w : ws) {
                if (!w.isAlive()) continue;
                alive = true;
                final long n = w.count;
                if (n != w.seenCount) { w.seenCount = n; w.cpuAtSeen = mx.getThreadCpuTime(w.getId()); }
                else if (mx.getThreadCpuTime(w.getId()) - w.cpuAtSeen > 20_000_000_000L && w.desc != null) {
                    w.report("the call does not return (20 s of processor time)", w.log, w.desc);
                }
            }
            if (fail != null || !alive) break;
            if (System.nanoTime() > end + 45_000_000_000L) break;
            Thread.sleep(50);
        }
        stop = true;
        System.out.println("RUNS " + runs.get() + " " + steps.get());
        if (fail != null) {
            System.out.println("FAIL-BEGIN\n" + fail + "\nFAIL-END");
            System.out.flush();
            Runtime.getRuntime().halt(3);
        }
        System.out.flush();
        Runtime.getRuntime().halt(0);
    }

    static void one(String prop, List<T> tests, String name, long seed, int size) {
        for (T t : tests) if (t.name.equals(name)) {
            final T.Log l = new T.Log(prop);
            try { t.run(new Random(seed), size, l); System.out.println("passed\n" + l.b); System.exit(0); }
            catch (Throwable e) { System.out.println("FAIL " + e + "\n" + l.b); System.exit(3); }
        }
        System.exit(2);
    }

    static final class Worker extends Thread {
        final String prop; final List<T> tests; final long seed, end;
        volatile long count; long seenCount = -1, cpuAtSeen; volatile T.Log log; volatile String desc;
        Worker(String prop, List<T> tests, long seed, long end) { this.prop = prop; this.tests = tests; this.seed = seed; this.end = end; }

        void report(String what, T.Log l, String d) {
            synchronized (Main.class) {
                if (fail == null) fail = what + "\n" + d + "\nhistory:\n" + (l == null ? "" : l.b);
            }
        }

        static final int[] SIZES = {3, 6, 12, 25, 50, 100, 200, 600, 8, 40};

        String exec(T t, long s, int size) {
            log = new T.Log(prop);
            desc = "test " + t.name + ", property " + prop + ", java Main " + prop + " 0 0 1 " + t.name + " " + s + " " + size;
            String r = null;
            try { t.run(new Random(s), size, log); }
            catch (R.Fail e) { r = e.getMessage(); }
            catch (R.Thrown e) {
                StackTraceElement[] st = e.t.getStackTrace();
                r = "unexpected " + e.t + (st.length > 0 ? " at " + st[0] : "");
            }
            catch (OutOfMemoryError | StackOverflowError e) { r = "unexpected " + e; }
            runs.incrementAndGet(); steps.addAndGet(log.steps); count++;
            return r;
        }

        @Override public void run() {
            try {
                final Random r = new Random(seed);
                int round = 0;
                while (!stop && System.nanoTime() < end) {
                    final int size = SIZES[round % SIZES.length];
                    for (T t : tests) {
                        if (stop || System.nanoTime() >= end) return;
                        final int k = round < 3 ? 1 : 4;
                        for (int i = 0; i < k; i++) {
                            final String f = exec(t, r.nextLong(), size);
                            if (f != null) { minimise(t, r, f, size); return; }
                        }
                    }
                    round++;
                }
            } catch (Throwable e) {
                final java.io.StringWriter w = new java.io.StringWriter();
                e.printStackTrace(new java.io.PrintWriter(w));
                System.out.println("HARNESS-ERROR " + desc + "\n" + w);
            }
        }

        /** looks for a shorter failing history of the same test */
        void minimise(T t, Random r, String f, int size) {
            String bestF = f, bestD = desc; T.Log best = log; long limit = System.nanoTime() + 2_000_000_000L;
            for (int s = 1; s < size && System.nanoTime() < limit; s++)
                for (int i = 0; i < 300 && System.nanoTime() < limit; i++) {
                    final String g = exec(t, r.nextLong(), s);
                    if (g != null && log.steps < best.steps) { bestF = g; best = log; bestD = desc; s = size; break; }
                }
            report(bestF, best, bestD);
        }
    }
}
