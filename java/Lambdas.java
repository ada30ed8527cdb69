package progs;
import java.util.*; import java.util.function.*; import java.util.stream.*;
public class Lambdas {
    interface Tri<A, B, C, R> { R go(A a, B b, C c); default <V> Tri<A, B, C, V> then(Function<? super R, ? extends V> f) { return (a, b, c) -> f.apply(go(a, b, c)); } }
    interface Shape { double area(); static Shape of(double r) { return () -> Math.PI * r * r; } private String hid() { return "hidden"; } default String show() { return hid() + String.format("%.3f", area()); } }
    private int secret = 42;
    class Inner { int twice() { return secret * 2; } class Deeper { int thrice() { return secret * 3 + twice(); } } }
    static class Counter { static int n; int id = ++n; { id += 100; } }
    static String vary(String f, Object... a) { return f + a.length + Arrays.toString(a); }
    static <T extends Comparable<? super T>> T best(Collection<? extends T> c) { Iterator<? extends T> i = c.iterator(); T b = i.next(); while (i.hasNext()) { T x = i.next(); if (x.compareTo(b) > 0) b = x; } return b; }
    public static void run() {
        int base = 7; long big = 1L << 40; String pre = "p\u0001\u0002";
        Supplier<String> s = () -> pre + base + big + 'c' + 1.5f + 2.5 + true + null + new int[0].length;
        System.out.println(s.get());
        Function<Integer, Function<Integer, Integer>> add = x -> y -> x + y + base;
        System.out.println(add.apply(3).apply(4));
        Tri<Integer, String, Double, String> t = (a, b, c) -> a + b + c;
        System.out.println(t.then(String::length).then(n -> n * n).go(1, "two", 3.0));
        System.out.println(IntStream.rangeClosed(1, 20).boxed().filter(i -> i % 3 != 0).map(Integer::toHexString).collect(Collectors.joining(",", "[", "]")));
        System.out.println(Stream.of("b", "a", "c").sorted(Comparator.<String>naturalOrder().reversed()).map(String::new).toArray(String[]::new).length);
        Supplier<Supplier<Lambdas>> mk = () -> Lambdas::new;
        Lambdas l = mk.get().get();
        System.out.println(l.new Inner().twice() + l.new Inner().new Deeper().thrice());
        System.out.println(Shape.of(2).show() + new Shape() { public double area() { return base; } }.show());
        System.out.println(new Counter().id + new Counter().id + Counter.n);
        System.out.println(vary("x") + vary("y", 1, "z", null) + vary("w", (Object[]) new String[] { "q" }));
        System.out.println(best(Arrays.asList(3, 9, 2)) + best(Set.of("only")));
        BiFunction<Object, Object, Boolean> eq = Object::equals; Runnable r = System.out::println; r.run();
        System.out.println(eq.apply("a", "a"));
        String acc = ""; for (int i = 0; i < 5; i++) { acc += i; acc = i + acc + "\u0001"; } System.out.println(acc);
        class Local<T> { T v; Local(T v) { this.v = v; } T get() { return v; } } System.out.println(new Local<>(pre).get() + new Local<>(base).get());
        var map = new TreeMap<String, List<Integer>>(); for (String w : "the quick brown fox jumps over the lazy dog the end".split(" ")) map.computeIfAbsent(w, k -> new ArrayList<>()).add(w.length()); System.out.println(map);
        Object o = (Runnable & java.io.Serializable) () -> System.out.println("ser"); ((Runnable) o).run();
    }
}
