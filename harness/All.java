import java.util.*;

final class All {
    static List<T> tests() {
        final List<T> out = new ArrayList<>();
        SeqTests.add(out);
        CollTests.add(out);
        HashTests.add(out);
        TypeTests.add(out);
        return out;
    }
}
