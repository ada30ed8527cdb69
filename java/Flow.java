package progs;
import java.util.*;
public class Flow {
    static class Res implements AutoCloseable { final String n; Res(String n) { this.n = n; System.out.print("<" + n); } public void close() throws Exception { System.out.print(n + ">"); if (n.equals("c")) throw new Exception("close " + n); } }
    static int fin(int k) { int r = 0; for (int i = 0; i < 4; i++) { try { if (i == k) continue; if (i + k == 5) return r + 1000; if (k == 9) throw new IllegalStateException("k" + i); r += i; } catch (IllegalStateException e) { r += 50; if (i == 2) break; } finally { r += 7; } } return r; }
    @SuppressWarnings("finally") static int swallow(boolean b) { while (true) { try { try { if (b) throw new Error("x"); return 1; } finally { if (b) return 2; } } finally { System.out.print("."); } } }
    static void deep(int n) { if (n == 0) { int[] a = new int[2]; a[n + 3] = 1; }
        deep(
            n - 1
        );
    }
    static synchronized int sync(Object o, int n) { synchronized (o) { synchronized (Flow.class) { if (n > 3) throw new RuntimeException("in lock"); return n << 2; } } }
    static long mix(int a, long b, float c, double d, short e, byte f, char g, boolean h) { long r = a; r = r * 31 + b; r ^= (long) c; r += (int) d; r -= e; r <<= 3; r >>>= 1; r |= f; r &= ~(long) g; r %= 1000003; if (h) r = -r; r += (byte) a + (short) a + (char) a; r += a >>> 3; r += a >> 2; r += c > d ? 1 : 2; r += c < d ? 4 : 8; return r; }
    static String trace(Throwable t) { StringBuilder b = new StringBuilder(t.toString()); for (StackTraceElement e : t.getStackTrace()) b.append("\n  ").append(e.getClassName()).append('.').append(e.getMethodName()).append(':').append(e.getFileName()).append(':').append(e.getLineNumber()); for (Throwable s : t.getSuppressed()) b.append("\n S ").append(trace(s)); if (t.getCause() != null) b.append("\n C ").append(trace(t.getCause())); return b.toString(); }
    static String npe(int which) { try { int[][] grid = new int[3][]; String text = null; Flow flow = null; Object thing = "s"; List<int[]> holder = new ArrayList<>(); holder.add(null);
            switch (which) {
                case 0: return "" + grid[1][2];
                case 1: return "" + text.length();
                case 2: return "" + flow.field.length;
                case 3: return "" + (Integer) thing;
                case 4: { int counter = 5; long wide = 7; double[] numbers = null; numbers[counter] = wide; return "no"; }
                case 5: return "" + holder.get(0)[0];
                case 6: { for (String inner = null; ; ) inner.trim(); }
                default: throw null;
            } } catch (RuntimeException e) { return e.getMessage() + "@" + e.getStackTrace()[0].getLineNumber(); } }
    int[] field;
    static int wide() { int a0=0,a1=1,a2=2,a3=3,a4=4; long l5=5; double d7=7; float f9=9; Object o10="x"; int s=0; for (int i = 0; i < 300; i += 1) { s += a0 + a1 * i; a2 += 1000; a3 -= 200; a4 += 127; a4 -= 128; l5 += i; d7 /= 2; f9 *= 1.5f; } return s + a2 + a3 + a4 + (int) l5 + (int) d7 + (int) f9 + o10.hashCode(); }
    public static void run() {
        for (int k = 0; k < 10; k++) System.out.print(fin(k) + " ");
        System.out.println(swallow(true) + " " + swallow(false));
        try { deep(5); } catch (ArrayIndexOutOfBoundsException e) { System.out.println(trace(e)); }
        for (int i = 2; i < 6; i++) try { System.out.print(sync(new Object(), i) + " "); } catch (RuntimeException e) { System.out.println(trace(e)); }
        try (Res a = new Res("a"); Res b = new Res("b"); Res c = new Res("c")) { throw new Exception("body"); } catch (Exception e) { System.out.println(trace(e)); }
        try { try { Object o = "s"; Integer i = (Integer) o; } catch (ClassCastException e) { throw new RuntimeException("wrapped", e); } } catch (RuntimeException e) { System.out.println(trace(e).replaceAll("\\(.*\\)", "")); }
        System.out.println(mix(123456789, -987654321098765L, 3.7e10f, -2.5e300, (short) -3, (byte) 77, 'q', true) + " " + mix(Integer.MIN_VALUE, Long.MAX_VALUE, Float.NaN, Double.NEGATIVE_INFINITY, (short) 32767, (byte) -128, '\uffff', false));
        for (int i = 0; i < 8; i++) System.out.println(npe(i));
        System.out.println(wide());
        int[][][] cube = new int[2][3][4]; long[][] half = new long[2][]; String[][] names = { { "a", null }, {} }; boolean[] bs = new boolean[3]; byte[] by = { 1, -1 }; char[] ch = { 'a', '\uffff' }; short[] sh = { -5 }; float[] fl = { -0f }; double[] db = { 0.1 };
        cube[1][2][3] = 5; half[1] = new long[] { 9, 8 }; bs[2] ^= true; by[0] += 200; ch[1]++; sh[0] >>= 1; fl[0] /= 0; db[0] %= 0.03;
        System.out.println(Arrays.deepToString(cube) + Arrays.deepToString(half) + Arrays.deepToString(names) + Arrays.toString(bs) + Arrays.toString(by) + (int) ch[1] + Arrays.toString(sh) + Arrays.toString(fl) + Arrays.toString(db) + cube.getClass() + names.getClass().getComponentType() + new Flow[0][0].getClass());
    }
}
