import java.util.*;

/** One test: a history on the real classes compared with a reference model. */
abstract class T {
    final String name;
    final Set<String> props;
    T(String name, String... props) { this.name = name; this.props = new LinkedHashSet<>(Arrays.asList(props)); }

    /** log of the current history */
    static final class Log {
        final StringBuilder b = new StringBuilder(); long steps;
        final Set<String> wanted; final String only;
        Log(String only) { this.only = only; this.wanted = Set.of(); }
        void op(String s) { steps++; if (b.length() < 20000) b.append("  ").append(s).append('\n'); }
        /** runs the check only when it concerns the property asked for */
        boolean wants(String p) { return only.equals(p); }
    }

    abstract void run(Random r, int size, Log l);

    /** n in [0, bound), small values more often */
    static int small(Random r, int bound) { return bound <= 1 ? 0 : r.nextInt(3) == 0 ? r.nextInt(bound) : r.nextInt(Math.min(bound, 4)); }
}
