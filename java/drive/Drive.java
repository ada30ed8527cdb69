package progs;
import java.lang.invoke.*;
import java.lang.reflect.*;
import java.util.*;
interface Face { long face(int a, long b, double c, Object d, float e); int small(); }
/** What the generated classes call, and what runs them. */
public class Drive implements Face {
    public static class Own extends RuntimeException { public Own() { super("own"); } }
    public int i; public long j; public float f; public double d; public Object o; public byte b; public short s; public char c; public boolean z;
    public static int si; public static long sj; public static float sf; public static double sd; public static Object so = "start";
    public Drive() { i = 7; o = "drive"; }
    public Drive(int a, long b, Object o) { i = a; j = b; this.o = o; }
    public long face(int a, long b, double c, Object d, float e) { return mix(a, b, e, c, d) * 5 + i; }
    public int small() { return i * 3 + 1; }
    public int virt(int a, Object o) { i += a; this.o = o; return i ^ hash(o, 1); }
    static int hash(Object o, int d) {
        if (o == null) return 3;
        if (o instanceof String) return ((String) o).hashCode() * 31 + ((String) o).length();
        if (o instanceof Integer || o instanceof Long || o instanceof Character) return o.hashCode();
        if (o instanceof Float) return Float.floatToIntBits((Float) o);
        if (o instanceof Double) return Long.hashCode(Double.doubleToLongBits((Double) o));
        if (o instanceof Class) return ((Class<?>) o).getName().hashCode() + 1;
        if (o instanceof MethodType) return ((MethodType) o).toMethodDescriptorString().hashCode() + 2;
        if (o instanceof MethodHandle) return ((MethodHandle) o).type().toMethodDescriptorString().hashCode() + 4;
        if (o instanceof Throwable) return exc((Throwable) o);
        if (o instanceof Drive) { Drive x = (Drive) o; return x.i * 5 + (int) x.j + x.b + x.s * 3 + x.c * 7 + (x.z ? 1 : 2) + Float.floatToIntBits(x.f) + Long.hashCode(Double.doubleToLongBits(x.d)) + (d > 3 ? 0 : hash(x.o, d + 1)); }
        if (o.getClass().isArray()) { int h = o.getClass().getName().hashCode(); int n = Array.getLength(o); h = h * 31 + n; for (int i = 0; i < n && i < 40 && d < 4; i++) h = h * 31 + hash(Array.get(o, i), d + 1); return h; }
        return o.getClass().getName().hashCode();
    }
    public static int hash(Object o) { return hash(o, 0); }
    /** kind of an exception and where it was thrown */
    public static int exc(Throwable t) { StackTraceElement[] s = t.getStackTrace(); int h = t.getClass().getName().hashCode(); for (StackTraceElement e : s) if (e.getClassName().startsWith("progs.B")) return h * 31 + e.getLineNumber() + e.getMethodName().hashCode() + String.valueOf(e.getFileName()).hashCode(); return h; }
    public static long mix(int a, long b, float c, double d, Object e) { return ((a * 31L + b) * 31 + Float.floatToIntBits(c)) * 31 + Double.doubleToLongBits(d) + hash(e); }
    public static RuntimeException boom(int k) { switch (k & 3) { case 0: return new Own(); case 1: return new IllegalStateException("x"); case 2: return new ArithmeticException("y"); default: return null; } }
    public static int many(byte a, short b, char c, boolean d, int[] e, long[][] f, String g, long h, double i) { return a + b * 3 + c * 5 + (d ? 7 : 11) + hash(e) + hash(f) + hash(g) + (int) h + (int) i; }
    // bootstraps
    public static long dyn(int salt, Object[] a) { long h = salt; for (Object o : a) h = h * 31 + hash(o); return h; }
    public static CallSite site(MethodHandles.Lookup l, String name, MethodType t, Object... args) throws Throwable {
        int salt = name.hashCode() * 31 + t.toMethodDescriptorString().hashCode();
        for (Object o : args) salt = salt * 31 + hash(o);
        MethodHandle m = MethodHandles.insertArguments(l.findStatic(Drive.class, "dyn", MethodType.methodType(long.class, int.class, Object[].class)), 0, salt);
        return new ConstantCallSite(m.asCollector(Object[].class, t.parameterCount()).asType(t));
    }
    public static Object konst(MethodHandles.Lookup l, String name, Class<?> t, Object... args) {
        int h = name.hashCode() * 7 + t.getName().hashCode();
        for (Object o : args) h = h * 31 + hash(o);
        if (t == int.class) return h;
        if (t == long.class) return h * 31L;
        if (t == float.class) return (float) h;
        if (t == double.class) return (double) h;
        return "k" + h;
    }
    static void show(String n, String m, Class<?> c, int x) {
        String r;
        try { r = String.valueOf(c.getMethod(m, int.class).invoke(null, x)); }
        catch (InvocationTargetException e) { r = e.getCause().getClass().getName() + "@" + exc(e.getCause()); }
        catch (Throwable e) { r = "!" + e; }
        System.out.println(n + "." + m + "(" + x + ") = " + r);
    }
    public static void main(String[] a) throws Exception {
        for (int k = 1; k < a.length; k++) for (int i = Integer.parseInt(a[k].split(":")[1]); i < Integer.parseInt(a[k].split(":")[2]); i++) {
            String n = "progs." + a[k].split(":")[0] + i;
            Class<?> c;
            try { c = Class.forName(n); } catch (ClassNotFoundException e) { continue; } catch (Throwable e) { System.out.println(n + " ! " + String.valueOf(e.getMessage()).split("\n")[0] + e.getClass()); continue; }
            si = 0; sj = 0; sf = 0; sd = 0; so = "start";
            ArrayList<String> ms = new ArrayList<>();
            try { for (Method m : c.getDeclaredMethods()) if (m.getName().startsWith("m")) ms.add(m.getName()); } catch (Throwable e) { System.out.println(n + " ! " + e); continue; }
            Collections.sort(ms);
            for (String m : ms) for (int x : new int[] {0, 1, -5, 100, 7919, Integer.MIN_VALUE}) show(n, m, c, x);
            for (Field f : c.getDeclaredFields()) { f.setAccessible(true); System.out.println(n + "." + f.getName() + " " + f.getType().getName() + " " + hash(f.get(null))); }
        }
    }
}
