package progs;
/** Ends with an uncaught exception or an exit status. */
public class Boom {
    static { System.out.println("init"); }
    static void a(int n) { if (n > 2)
            throw new IllegalStateException("boom " + n, new RuntimeException("cause"));
        b(n + 1); }
    static void b(int n) {
        Runnable r = () ->
            a(n + 1);
        r.run();
    }
    public static void main(String[] args) { if (args.length > 0) { Runtime.getRuntime().addShutdownHook(new Thread(() -> System.out.println("bye"))); System.exit(args[0].length()); } a(0); }
}
