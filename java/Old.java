package progs;
import java.util.*;
/** Nothing here needs more than class files of Java 5, whose verifier infers types by itself. */
public class Old {
    interface Wide { long f(long a, double b, int c, long[] d, double... e); double g(double a, Object b, long c); void none(); }
    interface Keyed<K extends Comparable<K>> { K key(); int rank(K k, long salt, boolean up); }
    static abstract class Named implements Keyed<String>, Wide { protected String n; private static int made; Named(String n) { this.n = n; made += n.length(); } public String key() { return n; } public int rank(String k, long salt, boolean up) { return (int) (k.compareTo(n) * salt) * (up ? 1 : -1); } public void none() { made ^= 5; } abstract long sum(); }
    static class Leaf extends Named { private final long[] v; Leaf(String n, long... v) { super(n); this.v = v; } public long f(long a, double b, int c, long[] d, double... e) { return a + (long) (b * c) + d.length + (long) e[e.length - 1] + v[c & 1]; } public double g(double a, Object b, long c) { return super.key().length() + a - c + (b == this ? 0.5 : b instanceof Named ? 0.25 : 0); } long sum() { long s = 0; for (long x : v) s += x; return s; } @Override public String key() { return super.key() + "!"; } }
    static class Cell<T> implements Iterable<T>, Cloneable { T a; Cell<T> next; Cell(T a, Cell<T> next) { this.a = a; this.next = next; } public Iterator<T> iterator() { return new Iterator<T>() { Cell<T> c = Cell.this; public boolean hasNext() { return c != null; } public T next() { T r = c.a; c = c.next; return r; } public void remove() { throw new UnsupportedOperationException(); } }; } @SuppressWarnings("unchecked") protected Cell<T> clone() { try { return (Cell<T>) super.clone(); } catch (CloneNotSupportedException e) { throw new AssertionError(); } } }
    private int hidden = 3; private static long stat; private static double dstat = 1; private byte small; private char letter = 'x'; private boolean flag; private float ratio = 2; private Object[] objs = new Object[3]; private int[][] grid = new int[2][3];
    class Peek { int look() { hidden += 2; small += 100; letter++; flag ^= true; ratio *= 1.5f; objs[1] = grid[1]; grid[0][hidden % 3] = hidden; return hidden++ + small + letter + (flag ? 1 : 0) + (int) ratio; } }
    static long post() { long[] a = { 1, 2, 3 }; int i = 0; a[i++] += a[i++] * 3 + a[i]--; stat = stat++ + ++stat; dstat = dstat-- * 2 - --dstat; double[] d = new double[2]; d[0] = d[1] = dstat += 4; Integer box = 5; box++; Long lb = stat; lb += box; Character c = 'a'; c++; return a[0] * 100 + a[2] + stat + (long) (d[0] * 8) + box + lb + c; }
    static int shorts(byte b, short s, char c, boolean z, int i, long l, float f, double d) { b += l; s -= d; c *= 3; z |= b > 0 & s < 0 ^ c == 9; i <<= l; i >>>= b; l = i > 0 ? l << i : l >> i; f %= 7; d = -d; f = -f; l = -l; i = ~i; return b + s + c + (z ? 1 : 0) + i + (int) l + (int) f + (int) d + (int) (long) d + (int) (float) l + (short) (int) f + (byte) l + (char) d; }
    static String cmp(long a, long b, float f, float g, double d, double e) { StringBuilder s = new StringBuilder(); s.append(a < b).append(a <= b).append(a > b).append(a >= b).append(a == b).append(a != b).append(f < g).append(f <= g).append(f > g).append(f >= g).append(f == g).append(f != g).append(d < e).append(d <= e).append(d > e).append(d >= e).append(d == e).append(d != e); return s.toString(); }
    static int many(long a, double b, Object c, int d, long e, float f, double g, String h, int[] i, long j) { long k = a + e + j; double l = b + g + f; if (k > 0) { int m = d; k += m; } else { double m = l; k -= (long) m; } { Object m = c; if (m != null) k += m.hashCode(); } return (int) (k ^ (long) l) + h.length() + i[0]; }
    static Object pick(int i, Leaf l, Cell<String> c) { Object o; if (i == 0) o = l; else if (i == 1) o = c; else if (i == 2) o = new int[] { i }; else o = i % 2 == 0 ? l : (Object) c.a; return o; }
    static int tries(int k) { int r = 1; try { try { if (k == 1) throw new IllegalStateException(); if (k == 2) throw new Error("e"); if (k == 3) return r; r += 10; } catch (IllegalStateException e) { r += 100; if (e.getMessage() == null) throw new RuntimeException("again", e); } finally { r += 1000; try { r /= k; } catch (ArithmeticException e) { r += 7; } finally { r ^= 1; } } } catch (RuntimeException e) { r += 5; } catch (Error e) { r *= e.getMessage().length() + 2; } return r; }
    public static void run() {
        Leaf l = new Leaf("leaf", 4, 5, 6); Wide w = l; Keyed<String> k = l; Named n = l;
        System.out.println(w.f(1L << 33, 2.5, 3, new long[2], 1, 2, 3.9) + " " + w.g(1.5, w, 9L) + " " + w.g(1.5, new Leaf("x"), 9L) + " " + w.g(2, null, -1) + " " + k.key() + k.rank("tree", 3L, false) + n.sum() + ((Comparable<String>) k.key()).compareTo("a"));
        w.none(); System.out.println(Named.made);
        Cell<String> c = new Cell<String>("a", new Cell<String>("b", new Cell<String>("c", null))); StringBuilder sb = new StringBuilder(); for (String s : c.clone()) sb.append(s).append(s.length()); System.out.println(sb);
        Old o = new Old(); Peek p = o.new Peek(); for (int i = 0; i < 5; i++) System.out.print(p.look() + " "); System.out.println(post() + " " + post());
        System.out.println(shorts((byte) 3, (short) 4, 'c', true, 6, 7, 8.5f, 9.5) + " " + shorts((byte) -3, (short) -4, '\uffff', false, -6, -7L << 40, -8.5e20f, Double.NaN));
        System.out.println(cmp(1, 2, 1, 2, 1, 2)); System.out.println(cmp(2, 1, 2, 1, 2, 1)); System.out.println(cmp(1, 1, 1, 1, -0.0, 0.0)); System.out.println(cmp(1, 1, Float.NaN, 1, 1, Double.NaN));
        System.out.println(many(1, 2, "c", 3, 4, 5, 6, "h", new int[] { 7 }, 8) + many(-10, 2, null, 3, -4, 5, 6, "h", new int[] { 7 }, -8));
        for (int i = 0; i < 5; i++) { Object x = pick(i, l, c); System.out.print((x instanceof Leaf) + "" + (x instanceof Cell) + (x instanceof int[]) + (x instanceof String)); try { System.out.print(((Leaf) x).n); } catch (ClassCastException e) { System.out.print("no"); } } System.out.println();
        for (int i = 0; i < 5; i++) System.out.print(tries(i) + " "); System.out.println();
        int a0 = 0; label: do { for (;;) { if (a0++ > 3) break label; if (a0 % 2 == 0) continue label; } } while (a0 < 10); System.out.println(a0);
        Map<Character, List<Object[]>> m = new TreeMap<Character, List<Object[]>>(); for (char ch : "hello".toCharArray()) { if (!m.containsKey(ch)) m.put(ch, new LinkedList<Object[]>()); m.get(ch).add(new Object[] { ch, (int) ch, new long[][] { { ch }, {} } }); } for (Map.Entry<Character, List<Object[]>> e : m.entrySet()) System.out.print(e.getKey() + "" + e.getValue().size() + ((long[][]) e.getValue().get(0)[2])[0][0]); System.out.println();
    }
}
