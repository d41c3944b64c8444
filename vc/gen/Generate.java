import freemarker.template.Configuration;
import freemarker.template.DefaultObjectWrapperBuilder;
import freemarker.template.Template;
import freemarker.template.TemplateExceptionHandler;
import java.io.StringWriter;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.stream.Stream;

/**
 * Renders the FreeMarker templates of a source set: Key*.ftl once per type, *KeyValue*.ftl once
 * per pair of types. Takes the place of the plugin com.bytefacets.template_processor; the data
 * model is inferred from the templates.
 *
 * <p>Generate TEMPLATES OUT [EXCLUDED.java ...]
 */
public final class Generate {
    /** What a template sees as type, key or value. Compared in templates by toString(). */
    public static final class Type {
        private final String name;
        private final String javaType;
        private final boolean generic;

        Type(final String name, final String javaType, final boolean generic) {
            this.name = name;
            this.javaType = javaType;
            this.generic = generic;
        }

        public String getName() {
            return name;
        }

        public String getJavaType() {
            return javaType;
        }

        public String getArrayType() {
            return generic ? "Object" : javaType;
        }

        public String getCast() {
            return generic ? "(" + javaType + ")" : "";
        }

        public String getDeclaration() {
            return generic ? "<" + javaType + ">" : "";
        }

        public boolean isGeneric() {
            return generic;
        }

        @Override
        public String toString() {
            return name;
        }
    }

    private static final String[] TYPES = {
        "Bool", "Byte", "Short", "Char", "Int", "Long", "Float", "Double", "String", "Generic"
    };

    private static Type type(final String name, final String variable) {
        return switch (name) {
            case "Bool" -> new Type(name, "boolean", false);
            case "String" -> new Type(name, "String", false);
            case "Generic" -> new Type(name, variable, true);
            default -> new Type(name, name.toLowerCase(java.util.Locale.ROOT), false);
        };
    }

    private static Map<String, Object> model(final Map<String, Type> types) {
        final Map<String, Object> model = new HashMap<>(types);
        final List<String> variables = new ArrayList<>();
        final List<String> instances = new ArrayList<>();
        for (Type t : types.values()) {
            if (t.isGeneric()) {
                variables.add(t.getJavaType());
                instances.add("Object");
            }
        }
        final boolean none = variables.isEmpty();
        model.put("generics", none ? "" : "<" + String.join(", ", variables) + ">");
        model.put("instanceGenerics", none ? "" : "<" + String.join(", ", instances) + ">");
        return model;
    }

    /** Classes of the JDK of which the bytecode is followed where the code under test calls it. */
    private static void jdk(final Path out) throws Exception {
        final String[] names = {
            "java/lang/Math", "java/lang/StrictMath", "java/lang/Integer", "java/lang/Long", "java/lang/Short",
            "java/lang/Byte", "java/lang/Character", "java/lang/Boolean", "java/lang/Float", "java/lang/Double",
            "java/util/Objects", "java/util/function/IntPredicate", "java/util/function/LongPredicate",
            "java/util/function/DoublePredicate", "java/util/function/Predicate", "java/util/function/BiPredicate",
            "java/util/function/IntUnaryOperator", "java/util/function/LongUnaryOperator",
            "java/util/function/UnaryOperator", "java/util/function/Function", "java/util/function/BiFunction",
            "java/util/function/BinaryOperator", "java/util/function/IntConsumer", "java/util/function/Consumer",
            "java/util/function/LongConsumer", "java/util/function/BiConsumer"
        };
        for (String name : names) {
            final Path to = out.resolve(name + ".class");
            Files.createDirectories(to.getParent());
            try (java.io.InputStream in = ClassLoader.getSystemResourceAsStream(name + ".class")) {
                Files.write(to, in.readAllBytes());
            }
        }
    }

    public static void main(final String[] args) throws Exception {
        jdk(Path.of(args[1]).resolveSibling("jdk"));
        final Path templates = Path.of(args[0]);
        final Path out = Path.of(args[1]);
        final Set<String> excluded = new HashSet<>(Arrays.asList(args).subList(2, args.length));

        final Configuration config = new Configuration(Configuration.VERSION_2_3_32);
        config.setDirectoryForTemplateLoading(templates.toFile());
        config.setDefaultEncoding("UTF-8");
        config.setObjectWrapper(
                new DefaultObjectWrapperBuilder(Configuration.VERSION_2_3_32).build());
        config.setTemplateExceptionHandler(TemplateExceptionHandler.RETHROW_HANDLER);
        config.setLogTemplateExceptions(false);

        final Set<Path> written = new HashSet<>();
        final List<Path> sources;
        try (Stream<Path> s = Files.walk(templates)) {
            sources = s.filter(p -> p.toString().endsWith(".ftl")).sorted().toList();
        }
        for (Path source : sources) {
            final Path relative = templates.relativize(source);
            final String base = relative.getFileName().toString().replaceFirst("\\.ftl$", "");
            final Template template = config.getTemplate(relative.toString());
            final List<Map<String, Type>> models = new ArrayList<>();
            for (String key : TYPES) {
                if (!base.contains("KeyValue")) {
                    models.add(Map.of("type", type(key, "T")));
                } else if (!key.equals("Bool")) { // there is no Bool-keyed base class
                    for (String value : TYPES) {
                        final Map<String, Type> pair = new TreeMap<>();
                        pair.put("key", type(key, "K"));
                        pair.put("value", type(value, "V"));
                        models.add(pair);
                    }
                }
            }
            for (Map<String, Type> types : models) {
                final String name =
                        types.containsKey("type")
                                ? base.replace("Key", types.get("type").getName())
                                : base.replace(
                                        "KeyValue",
                                        types.get("key").getName() + types.get("value").getName());
                if (excluded.contains(name + ".java")) {
                    continue;
                }
                final StringWriter text = new StringWriter();
                template.process(model(types), text);
                final Path target = out.resolve(relative).resolveSibling(name + ".java");
                Files.createDirectories(target.getParent());
                if (!Files.exists(target)
                        || !Files.readString(target).equals(text.toString())) {
                    Files.writeString(target, text.toString());
                }
                written.add(target);
            }
        }
        if (Files.exists(out)) {
            final List<Path> old;
            try (Stream<Path> s = Files.walk(out)) {
                old = s.filter(p -> Files.isRegularFile(p) && !written.contains(p)).toList();
            }
            for (Path p : old) {
                Files.delete(p);
            }
        }
    }
}
