package progs;
import java.lang.invoke.*; import java.util.*; import java.util.function.*;
/** Calls of every kind through interfaces, and what method handles say about members. */
public class Faces {
    interface A { int K = new Random(7).nextInt(9); default String who() { return "A" + own(2L, .5); } private String own(long a, double b) { return a + "/" + b; } static long st(long a, double b, int... c) { return a + (long) b + c.length + helper(c); } private static int helper(int[] c) { return c.length * 10; } }
    interface B { default String who() { return "B"; } default long wide(long a, double b, long c) { return a - (long) b * c; } }
    interface C extends A { default String who() { return "C" + A.super.who(); } }
    static class D implements A, B { public String who() { return "D" + A.super.who() + B.super.who(); } public long wide(long a, double b, long c) { return B.super.wide(c, b, a) + 1; } }
    static class E extends D implements C { public String who() { return "E" + super.who() + C.super.who(); } @Override public int hashCode() { return super.hashCode() * 0 + 5; } @Override public String toString() { return "E!" + Objects.hash(who(), K); } }
    private static int hid(Other o) { return o.priv + o.privm(3L); }
    static class Other { private int priv = 4; private int privm(long x) { return (int) x * priv + Faces.sec; } private Other() { } private Other(double d, long l) { priv = (int) (d + l); } }
    private static int sec = 11;
    enum Op implements LongBinaryOperator { ADD("+") { public long applyAsLong(long a, long b) { return a + b; } }, MUL("*") { public long applyAsLong(long a, long b) { return a * b; } @Override String sym() { return "x" + super.sym(); } }; final String s; Op(String s) { this.s = s; } String sym() { return s; } }
    static String guarded(int x) { try { assert x > 3 : "small " + x; return "fine"; } catch (AssertionError e) { return e.getMessage(); } }
    static native int nat(int a);
    static strictfp double strict(double a) { return a * 1e308 / 1e308; }
    static int rec(int n) { return n <= 0 ? 0 : 1 + rec(n - 1); }
    static <T, R> List<R> each(Iterable<? extends T> i, Function<? super T, ? extends R> f) { List<R> r = new ArrayList<>(); i.forEach(x -> r.add(f.apply(x))); return r; }
    static final Object LOCK = new Object(); static int n; 
    public static void run() throws Throwable {
        A a = new E(); B b = new D(); C c = new E(); D d = new E();
        System.out.println(a.who() + b.who() + c.who() + d.who() + a + b.wide(1, 2, 3) + d.wide(3L << 33, 2.5, 9) + A.st(5, 6.5, 1, 2, 3) + A.K + new C() { }.who() + new B() { }.wide(1, 1, 1));
        System.out.println(hid(new Other()) + hid(new Other(3.5, 9)) + new Other().privm(9));
        for (Op o : Op.values()) System.out.print(o + o.sym() + o.applyAsLong(6, 7) + o.getDeclaringClass().getSimpleName() + Op.valueOf(o.name()).ordinal()); System.out.println(new EnumMap<>(Map.of(Op.MUL, 1)) + "" + EnumSet.complementOf(EnumSet.of(Op.ADD)));
        System.out.println(guarded(1) + guarded(5));
        try { nat(3); } catch (UnsatisfiedLinkError e) { System.out.println("no native"); }
        System.out.println(strict(3.25) + rec(500));
        MethodHandles.Lookup l = MethodHandles.lookup();
        System.out.println(l.findSpecial(A.class, "own", MethodType.methodType(String.class, long.class, double.class), A.class == null ? null : Faces.class == null ? null : A.class).type());
        System.out.println((long) l.findStatic(A.class, "st", MethodType.methodType(long.class, long.class, double.class, int[].class)).invokeExact(1L, 2.0, new int[] { 1 }));
        System.out.println((int) l.findGetter(Other.class, "priv", int.class).invokeExact(new Other()) + (int) l.findStaticGetter(Faces.class, "sec", int.class).invokeExact());
        MethodHandle mh = l.findConstructor(Other.class, MethodType.methodType(void.class, double.class, long.class)); Other o = (Other) mh.invoke(1.0, 2L); System.out.println(o.priv + "" + mh);
        VarHandle vh = l.findVarHandle(Other.class, "priv", int.class); System.out.println((int) vh.getAndAdd(o, 5) + "" + vh.compareAndSet(o, 8, 9) + (int) vh.getVolatile(o)); vh.setVolatile(o, 1); 
        LongBinaryOperator f = Op.ADD; LongBinaryOperator g = Op.MUL::applyAsLong; ToDoubleBiFunction<Long, Integer> h = (x, y) -> x / (double) y; LongFunction<long[]> mk = x -> new long[] { x, -x }; IntFunction<int[][]> arr = int[][]::new; Supplier<Other> ctor = Other::new; Function<D, String> vir = D::who; Supplier<String> bound = c::who; BiFunction<A, Object, Boolean> same = Object::equals; ToIntFunction<Other> pr = Faces::hid;
        System.out.println(f.applyAsLong(1L << 40, 2) + g.applyAsLong(3, 4) + h.applyAsDouble(7L, 2) + Arrays.toString(mk.apply(9)) + arr.apply(3).length + ctor.get().priv + vir.apply(d) + bound.get() + same.apply(a, a) + pr.applyAsInt(o));
        System.out.println(each(List.of(1, 2, 3), x -> each(List.of("a", "b"), y -> y + x)));
        Thread[] ts = new Thread[4]; for (int i = 0; i < 4; i++) { ts[i] = new Thread(() -> { for (int j = 0; j < 1000; j++) synchronized (LOCK) { n++; } }); ts[i].start(); } for (Thread t : ts) t.join(); System.out.println(n);
        Object text = """
            block \
            text\tand "quotes" \u00e9
            """; System.out.print(text);
        int[] fib = new int[20]; fib[0] = fib[1] = 1; for (int i = 2; i < fib.length; i++) fib[i] = fib[i - 1] + fib[i - 2]; System.out.println(Arrays.stream(fib).mapToObj(Integer::toString).reduce("", (x, y) -> x + y));
        StackWalker w = StackWalker.getInstance(Set.of(StackWalker.Option.RETAIN_CLASS_REFERENCE)); Supplier<String> s = () -> w.walk(q -> { StringBuilder r = new StringBuilder(); q.limit(2).forEach(x -> r.append(x.getMethodName().startsWith("lambda") ? "lambda" : x.getMethodName()).append(x.getLineNumber()).append(x.getDescriptor().length() > 0)); return r.toString(); }); System.out.println(s.get());
    }
}
